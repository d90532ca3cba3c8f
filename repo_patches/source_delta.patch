From 2aeea67b2dfad723f6329f65ff8c0ee3536cb09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:21 +0000
Subject: [PATCH 01/20] fix: apply the last content change of a didChange
 notification

The first of several changes won, and an empty list of changes panicked.
---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 50c5aea..e2527a8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -170,9 +170,14 @@ impl LanguageServer for Backend {
     }
 
     async fn did_change(&self, mut params: DidChangeTextDocumentParams) {
+        // The content changes are applied in order. Since we use full document sync,
+        // only the last one is relevant.
+        let Some(change) = params.content_changes.pop() else {
+            return;
+        };
         self.on_change(TextDocumentItem {
             uri: params.text_document.uri,
-            text: std::mem::take(&mut params.content_changes[0].text),
+            text: change.text,
             version: params.text_document.version,
         })
         .await
-- 
2.43.0


From 3028d2418d84e3a6e80e3d76e341dafa5b1e8467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 02/20] fix: extract debug annotation values by character, not
 by byte offsets

Non-ASCII text before an annotation led to wrong values or to a panic.
---
 src/hir_index.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hir_index.rs b/src/hir_index.rs
index d3246e7..409ee0a 100644
--- a/src/hir_index.rs
+++ b/src/hir_index.rs
@@ -195,6 +195,13 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
         ..Default::default()
     };
 
+    // Our spans are in characters; map them to byte offsets
+    let byte_offsets = src
+        .char_indices()
+        .map(|(offset, _)| offset)
+        .chain(std::iter::once(src.len()))
+        .collect::<Vec<_>>();
+
     // Index all definitions / declarations based on the actual parse tree
     let mut unresolved_function_dbgrefs: HashMap<String, String> = Default::default();
     for s in stmts.iter() {
@@ -216,7 +223,7 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
                 if !def.is_empty() {
                     let start = def.first().unwrap().1.start;
                     let end = def.last().unwrap().1.end;
-                    let value = &src[start..end];
+                    let value = &src[byte_offsets[start]..byte_offsets[end]];
                     index
                         .dgb_annotation_values
                         .insert(name.0.clone(), value.to_string());
-- 
2.43.0


From e781eeab29fb929a1af00c648b39e3928625530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 03/20] fix: don't panic on numbered identifiers with
 multi-byte characters

---
 src/rename.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rename.rs b/src/rename.rs
index 558d253..3a88240 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -7,10 +7,7 @@ use crate::{
 };
 
 pub fn extract_number_from_identifier(id: &str) -> Option<(&str, i64)> {
-    let offset = id
-        .rfind(|c: char| !c.is_numeric())
-        .map(|i| i + 1)
-        .unwrap_or(0);
+    let offset = id.trim_end_matches(char::is_numeric).len();
     let (name, nr) = id.split_at(offset);
     Some((name, nr.parse::<i64>().ok()?))
 }
-- 
2.43.0


From 6f2971e4b18f0c8c73f9f226aef9f994acf51a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 04/20] fix: don't panic when shortening non-ASCII symbol names
 in backtraces

---
 src/backtrace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index fc185e6..dd5ba9f 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -172,10 +172,10 @@ fn backtrace_json_to_md(frames: &[Frame]) -> String {
 }
 
 fn shorten_name(s: &str, len: usize) -> String {
-    if s.len() < len - 2 {
+    if s.chars().count() < len - 2 {
         s.to_string()
     } else {
-        s[..len - 2].to_string() + "…"
+        s.chars().take(len - 2).collect::<String>() + "…"
     }
 }
 
-- 
2.43.0


From 8370c569c2cd836c0e91e24efedb39b3cfd3d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 05/20] fix: skip workspace folders whose URI cannot be a base

Resolving a path against e.g. `untitled:folder` panicked.
---
 src/backtrace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index dd5ba9f..7a3651d 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -8,7 +8,7 @@ use tower_lsp::lsp_types::{
 pub fn resolve_relative_path(root_paths: &[Url], path: &str) -> Option<Url> {
     root_paths.iter().find_map(|baseuri| {
         let mut uri = baseuri.clone();
-        uri.path_segments_mut().unwrap().extend(path.split('/'));
+        uri.path_segments_mut().ok()?.extend(path.split('/'));
         if uri.to_file_path().ok()?.exists() {
             Some(uri)
         } else {
-- 
2.43.0


From 615c225f2fe5926016654e1943c66d832262086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 06/20] fix: don't underflow on external definitions with line
 number 0

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e2527a8..ae0ce68 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -809,8 +809,8 @@ impl Backend {
                 Some(Location {
                     uri,
                     range: Range {
-                        start: Position::new(d.line - 1, 0),
-                        end: Position::new(d.line - 1, 0),
+                        start: Position::new(d.line.saturating_sub(1), 0),
+                        end: Position::new(d.line.saturating_sub(1), 0),
                     },
                 })
             }));
-- 
2.43.0


From e7f11dae3d214e1fc984f20352e1aa358d2c81a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 07/20] fix: don't overflow when shifting the numbering of
 identifiers

---
 src/main.rs   | 2 +-
 src/rename.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ae0ce68..082cdf5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -348,7 +348,7 @@ impl LanguageServer for Backend {
             let rename_nr = new_name[1..].parse::<i64>().map_err(|_e| {
                 Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
             })?;
-            let rename_shift = sign * rename_nr;
+            let rename_shift = sign * i128::from(rename_nr);
             let (_, rename_start) =
                 extract_number_from_identifier(&symbol.name).ok_or_else(|| {
                     Error::invalid_params(
diff --git a/src/rename.rs b/src/rename.rs
index 3a88240..6cbb911 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -33,7 +33,7 @@ pub fn get_shift_edits(
     symbol_kind: SymbolKind,
     func_body_id: Option<usize>,
     renamed_nr: i64,
-    shift: i64,
+    shift: i128,
 ) -> Vec<TextEdit> {
     index
         .get_by_symbol_kind(
@@ -46,7 +46,7 @@ pub fn get_shift_edits(
             if nr < renamed_nr {
                 return None;
             }
-            let new_name = format!("{}{}", prefix, (nr + shift).wrapping_abs());
+            let new_name = format!("{}{}", prefix, (i128::from(nr) + shift).abs());
             Some(get_rename_edits(rope, usedefs, &new_name))
         })
         .flatten()
-- 
2.43.0


From 784d1d5f83efeaea2cd432462738996764681b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 08/20] fix: reject code actions which refer to an unknown
 function body

Resolving an outdated code action panicked.
---
 src/main.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 082cdf5..fa38aee 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -840,6 +840,16 @@ impl Backend {
                     .document_map
                     .get(&uri.to_string())
                     .ok_or_else(|| Error::invalid_params("Document not found"))?;
+                // The client might send us outdated or otherwise invalid data
+                let is_func_local = matches!(
+                    symbol_kind,
+                    hyper_ir_lsp::hir_index::SymbolKind::Label
+                        | hyper_ir_lsp::hir_index::SymbolKind::LocalVar
+                );
+                let func_body_cnt = doc.index.function_bodies.len();
+                if func_body_id.map_or(is_func_local, |id| id >= func_body_cnt) {
+                    return Err(Error::invalid_params("Function body not found"));
+                }
                 let edits = get_shift_edits(
                     &doc.rope,
                     &doc.index,
-- 
2.43.0


From 054d82c6795e6d36b7bd27da2735682ea9f4dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:56 +0000
Subject: [PATCH 09/20] fix: convert between character offsets and UTF-16 based
 LSP positions

Spans are in characters but were interpreted as byte offsets, and columns were
counted in characters instead of UTF-16 code units. Furthermore, columns
behind the end of a line spilled over into the following lines.
---
 src/lsp_utils.rs      | 22 ++++++++++++++++++----
 src/semantic_token.rs | 18 ++++++++++++------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/lsp_utils.rs b/src/lsp_utils.rs
index b693ff6..180bbef 100644
--- a/src/lsp_utils.rs
+++ b/src/lsp_utils.rs
@@ -3,15 +3,29 @@ use tower_lsp::lsp_types::{Position, Range};
 
 use crate::hir_tokenizer::Span;
 
+// All offsets are in characters (Unicode scalar values), while LSP counts UTF-16 code units
+
 pub fn lsp_pos_to_offset(rope: &Rope, pos: &Position) -> Option<usize> {
-    let char = rope.try_line_to_char(pos.line as usize).ok()?;
-    Some(char + pos.character as usize)
+    let first = rope.try_line_to_char(pos.line as usize).ok()?;
+    let line = rope.get_line(pos.line as usize)?;
+    let linebreak_len = line
+        .chars_at(line.len_chars())
+        .reversed()
+        .take_while(|c| *c == '\r' || *c == '\n')
+        .count();
+    // Positions behind the end of the line refer to the end of the line
+    let last = first + line.len_chars() - linebreak_len;
+    let utf16_offset = rope.char_to_utf16_cu(first) + pos.character as usize;
+    if utf16_offset >= rope.char_to_utf16_cu(last) {
+        return Some(last);
+    }
+    Some(rope.utf16_cu_to_char(utf16_offset))
 }
 
 pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
-    let line = rope.try_byte_to_line(pos).ok()?;
+    let line = rope.try_char_to_line(pos).ok()?;
     let first = rope.try_line_to_char(line).ok()?;
-    let character = rope.try_byte_to_char(pos).ok()? - first;
+    let character = rope.char_to_utf16_cu(pos) - rope.char_to_utf16_cu(first);
     Some(Position {
         line: line.try_into().ok()?,
         character: character.try_into().ok()?,
diff --git a/src/semantic_token.rs b/src/semantic_token.rs
index f082033..f590f8d 100644
--- a/src/semantic_token.rs
+++ b/src/semantic_token.rs
@@ -1,7 +1,10 @@
 use ropey::Rope;
-use tower_lsp::lsp_types::{SemanticToken, SemanticTokenType};
+use tower_lsp::lsp_types::{Position, SemanticToken, SemanticTokenType};
 
-use crate::hir_tokenizer::{Span, Token};
+use crate::{
+    hir_tokenizer::{Span, Token},
+    lsp_utils::offset_to_lsp_pos,
+};
 
 pub const LEGEND_TYPE: &[SemanticTokenType] = &[
     SemanticTokenType::COMMENT,
@@ -60,9 +63,12 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
     let lsp_tokens = semtoks
         .iter()
         .filter_map(|token| {
-            let line = rope.try_byte_to_line(token.start).ok()? as u32;
-            let first = rope.try_line_to_char(line as usize).ok()? as u32;
-            let start = rope.try_byte_to_char(token.start).ok()? as u32 - first;
+            let Position {
+                line,
+                character: start,
+            } = offset_to_lsp_pos(rope, token.start)?;
+            let length = rope.try_char_to_utf16_cu(token.start + token.length).ok()?
+                - rope.try_char_to_utf16_cu(token.start).ok()?;
             let delta_line = line - pre_line;
             let delta_start = if delta_line == 0 {
                 start - pre_start
@@ -72,7 +78,7 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
             let ret = Some(SemanticToken {
                 delta_line,
                 delta_start,
-                length: token.length as u32,
+                length: length as u32,
                 token_type: token.token_type as u32,
                 token_modifiers_bitset: 0,
             });
-- 
2.43.0


From a9d08a60bd5d346580ee625fc66426cd65b80cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:56 +0000
Subject: [PATCH 10/20] fix: report syntax errors at the end of the input

The span of such errors lies behind the end of the document. Hence, they were
silently dropped.
---
 src/lsp_utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lsp_utils.rs b/src/lsp_utils.rs
index 180bbef..908448d 100644
--- a/src/lsp_utils.rs
+++ b/src/lsp_utils.rs
@@ -23,6 +23,8 @@ pub fn lsp_pos_to_offset(rope: &Rope, pos: &Position) -> Option<usize> {
 }
 
 pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
+    // The span of the end-of-input lies behind the end of the document
+    let pos = pos.min(rope.len_chars());
     let line = rope.try_char_to_line(pos).ok()?;
     let first = rope.try_line_to_char(line).ok()?;
     let character = rope.char_to_utf16_cu(pos) - rope.char_to_utf16_cu(first);
-- 
2.43.0


From a9b52158b5944e393ba0002376d0c9e9eb75d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:27 +0000
Subject: [PATCH 11/20] fix: reject new names which are not valid identifiers

Renaming to an empty name panicked. Renaming to a keyword, a type name or to a
name with a trailing colon produced a broken document.
---
 src/main.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index fa38aee..439718c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -2,6 +2,7 @@ use std::cell::Cell;
 use std::collections::HashMap;
 use std::sync::Mutex;
 
+use chumsky::Parser;
 use dashmap::DashMap;
 use hyper_ir_lsp::backtrace::{
     inlay_hint_for_backtrace, parse_backtrace_from_json, resolve_relative_path,
@@ -12,6 +13,7 @@ use hyper_ir_lsp::diagnostics::{
 };
 use hyper_ir_lsp::hir_index::{create_index, HIRIndex, SymbolOccurrence, UseDefKind, UseDefList};
 use hyper_ir_lsp::hir_parser::{parse_from_str, BasicBlock, Instruction, ParserResult, Statement};
+use hyper_ir_lsp::hir_tokenizer::{tokenizer, Token};
 use hyper_ir_lsp::lsp_utils::{lsp_pos_to_offset, offset_to_lsp_pos, range_to_lsp};
 use hyper_ir_lsp::rename::{extract_number_from_identifier, get_rename_edits, get_shift_edits};
 use hyper_ir_lsp::semantic_token::{
@@ -381,12 +383,26 @@ impl LanguageServer for Backend {
             {
                 return Result::Err(Error::invalid_params("Name contains invalid character"));
             }
-            if new_name.chars().next().unwrap().is_numeric()
+            if new_name.is_empty() {
+                return Result::Err(Error::invalid_params("Name must not be empty"));
+            }
+            if new_name.starts_with(char::is_numeric)
                 && symbol.symbol_kind != hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation
             {
                 return Result::Err(Error::invalid_params("Name must not start with a digit"));
             }
             new_name = format!("{}{}", prefix, new_name);
+            // E.g., keywords, type names and trailing colons don't make up a valid name
+            let tokens = tokenizer().parse(new_name.as_str()).unwrap_or_default();
+            if !matches!(
+                (prefix, &tokens[..]),
+                ("@", [(Token::GlobalName(_), _)])
+                    | ("!", [(Token::DebugRef(_), _)])
+                    | ("", [(Token::Ident(_), _)])
+                    | ("%", [(Token::LocalName(_), _)])
+            ) {
+                return Result::Err(Error::invalid_params("Not a valid name"));
+            }
 
             // Rename all occurrences
             let usedefs = doc
-- 
2.43.0


From 3b479527ff82e58443c4e8370f7af02d3b10e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:53 +0000
Subject: [PATCH 12/20] fix: don't lock the document while waiting for the
 client to show a graph

Changing the document before the client had replied to `hyperir/showDot`
deadlocked the server.
---
 src/main.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 439718c..7cec8d4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -682,16 +682,13 @@ impl LanguageServer for Backend {
     async fn execute_command(&self, params: ExecuteCommandParams) -> Result<Option<Value>> {
         match (params.command.as_str(), &params.arguments[..]) {
             ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
-                let index = &self
-                    .document_map
-                    .get(doc_uri)
-                    .ok_or_else(|| Error {
-                        code: ErrorCode::InvalidParams,
-                        message: format!("document `{}` not found", doc_uri).into(),
-                        data: None,
-                    })?
-                    .index;
-                let func_body = index
+                let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {
+                    code: ErrorCode::InvalidParams,
+                    message: format!("document `{}` not found", doc_uri).into(),
+                    data: None,
+                })?;
+                let func_body = doc
+                    .index
                     .function_bodies
                     .iter()
                     .find(|b| b.name.0 == *func_name)
@@ -703,6 +700,8 @@ impl LanguageServer for Backend {
 
                 let title = format!("CFG for {}", func_name);
                 let dot_graph = create_cfg_dot_visualization(func_body);
+                // Don't block updates of the document while waiting for the client
+                drop(doc);
 
                 // Make this dependent on a client setting / client capability
                 // since it reuqires additional client-siye collabolation
-- 
2.43.0


From 459e7c9472fb5fcd487b4c93d8e0c8f3ae8b266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:53 +0000
Subject: [PATCH 13/20] fix: survive the cancellation of a pending
 visualize-cfg command

When the client cancelled the command and later on replied to
`hyperir/showDot`, the server crashed.
---
 src/main.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 7cec8d4..6140b12 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -705,14 +705,21 @@ impl LanguageServer for Backend {
 
                 // Make this dependent on a client setting / client capability
                 // since it reuqires additional client-siye collabolation
-                self.client
-                    .send_request::<ShowGraph>(ShowGraphParams { title, dot_graph })
-                    .await
-                    .map_err(|e| Error {
-                        code: ErrorCode::InternalError,
-                        message: format!("Failed displaying the dot graph: `{}`", e).into(),
-                        data: None,
-                    })?;
+                // We use a separate task, because the reply must still be received if this
+                // command gets cancelled in the meantime. Otherwise, `tower-lsp` panics.
+                let client = self.client.clone();
+                tokio::spawn(async move {
+                    client
+                        .send_request::<ShowGraph>(ShowGraphParams { title, dot_graph })
+                        .await
+                })
+                .await
+                .map_err(|_| Error::internal_error())?
+                .map_err(|e| Error {
+                    code: ErrorCode::InternalError,
+                    message: format!("Failed displaying the dot graph: `{}`", e).into(),
+                    data: None,
+                })?;
                 Ok(None)
             }
             _ => Err(Error {
-- 
2.43.0


From c074d0bac19f46c72312df4bbb6039e14d54ebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:35 +0000
Subject: [PATCH 14/20] fix: don't include skipped characters in the span of
 the next token

E.g., the number in `-5` was reported to include the `-`.
---
 src/hir_tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index 9761e3e..22a1776 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -138,10 +138,10 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
         debugref,
         newline,
     ))
+    .map_with_span(|tok, span| (tok, span))
     .recover_with(skip_then_retry_until([]));
 
     token
-        .map_with_span(|tok, span| (tok, span))
         .padded_by(one_of(" \t").repeated())
         .repeated()
         .then_ignore(end())
-- 
2.43.0


From a1e2b6a4304fabba44632313bab9d692adde085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:35 +0000
Subject: [PATCH 15/20] fix: keep all tokens in front of an invalid character
 at the end of the input

If there was no valid token behind an invalid character, all tokens of the
document were dropped. Also, don't report a document which consists solely of
whitespace as invalid.
---
 src/hir_tokenizer.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index 22a1776..faa96b4 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -138,13 +138,18 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
         debugref,
         newline,
     ))
-    .map_with_span(|tok, span| (tok, span))
-    .recover_with(skip_then_retry_until([]));
+    .map_with_span(|tok, span| Some((tok, span)))
+    .recover_with(skip_then_retry_until([]))
+    // There might be no valid token after the skipped characters
+    .recover_with(skip_until([], |_| None));
 
-    token
-        .padded_by(one_of(" \t").repeated())
-        .repeated()
+    let whitespace = one_of(" \t").repeated();
+
+    whitespace
+        .clone()
+        .ignore_then(token.then_ignore(whitespace).repeated())
         .then_ignore(end())
+        .flatten()
 }
 
 #[test]
-- 
2.43.0


From 61b3946158162ff321ddebdce1878270e6c31a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:35 +0000
Subject: [PATCH 16/20] fix: keep all statements in front of an invalid
 statement at the end of the input

If there was no valid statement behind an invalid one, all statements of the
document were dropped. Also, don't report a document which consists solely of
empty lines and comments as invalid.
---
 src/hir_parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 41d06c7..db198d4 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -415,15 +415,22 @@ pub fn parser() -> impl Parser<Token, Vec<Statement>, Error = Simple<Token>> + C
         .then_ignore(eol.clone())
         .map(|(n, def)| Statement::DbgAnnotation { name: n, def });
 
-    global_var
+    let statement = global_var
         .or(func_decl)
         .or(func_def)
         .or(func_dependencies)
         .or(dbg_annotation)
-        .padded_by(just(Token::Newline).repeated())
+        .then_ignore(just(Token::Newline).repeated())
+        .map(Some)
         .recover_with(skip_then_retry_until([]))
+        // There might be no valid statement behind the invalid one
+        .recover_with(skip_until([], |_| None));
+
+    just(Token::Newline)
         .repeated()
+        .ignore_then(statement.repeated())
         .then_ignore(end())
+        .flatten()
 }
 
 pub struct ParserResult {
-- 
2.43.0


From 0eacc910c72612086e3590fb87048a35da171032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:24 +0000
Subject: [PATCH 17/20] fix: don't include the carriage return of a CRLF line
 break in comments

---
 src/hir_tokenizer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index faa96b4..278f21f 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -51,9 +51,11 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
         .or(just('\r').then_ignore(just('\n')))
         .to(Token::Newline);
 
-    // A comment parser
+    // A comment parser; the line break is not part of the comment
     let comment = just('#')
-        .chain(take_until(just('\n').or(end().to('\n')).rewind()))
+        .then(take_until(
+            newline.clone().ignored().or(end().ignored()).rewind(),
+        ))
         .to(Token::Comment);
 
     // A parser for hex numbers
-- 
2.43.0


From 38faf144b9ca9c09058b63c1d1538cda7df8377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:20 +0000
Subject: [PATCH 18/20] fix: count the basic blocks of a folded function, not
 the label names

Labels which are used but not defined were counted as blocks, repeated labels
only once, and a leading block without label not at all.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6140b12..65a3387 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -496,7 +496,7 @@ impl LanguageServer for Backend {
             let mut folding_ranges = Vec::<FoldingRange>::new();
 
             folding_ranges.extend(doc.index.function_bodies.iter().filter_map(|f| {
-                let collapsed_text = format!("{} basic blocks", f.labels.len());
+                let collapsed_text = format!("{} basic blocks", f.basic_blocks.len());
                 let range = range_to_lsp(&doc.rope, &f.complete_range)?;
                 Some(FoldingRange {
                     start_line: range.start.line,
-- 
2.43.0


From 57fee4ba4a458256c674c3904a56d0bd0efa9180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:57 +0000
Subject: [PATCH 19/20] fix: resolve `..` in the paths of source files

The `..` segments were dropped, so that `dir/../a.cpp` led to `dir/a.cpp`.
---
 src/backtrace.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index 7a3651d..6b5b73d 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -6,9 +6,18 @@ use tower_lsp::lsp_types::{
 };
 
 pub fn resolve_relative_path(root_paths: &[Url], path: &str) -> Option<Url> {
+    // `path_segments_mut` ignores `..`; hence we have to resolve it ourselves
+    let mut segments = Vec::<&str>::new();
+    for segment in path.split('/') {
+        if segment == ".." {
+            segments.pop();
+        } else if segment != "." {
+            segments.push(segment);
+        }
+    }
     root_paths.iter().find_map(|baseuri| {
         let mut uri = baseuri.clone();
-        uri.path_segments_mut().ok()?.extend(path.split('/'));
+        uri.path_segments_mut().ok()?.extend(&segments);
         if uri.to_file_path().ok()?.exists() {
             Some(uri)
         } else {
-- 
2.43.0


From 38d753ef57e5e9aeec25431fd3df6065776742a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:34 +0000
Subject: [PATCH 20/20] fix: find the source of every function declaration with
 a debug annotation

If the annotation preceded the declaration, or if several declarations shared it, all but the
last declaration before the annotation were ignored.
---
 src/hir_index.rs | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/hir_index.rs b/src/hir_index.rs
index 409ee0a..ea307c2 100644
--- a/src/hir_index.rs
+++ b/src/hir_index.rs
@@ -202,20 +202,33 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
         .chain(std::iter::once(src.len()))
         .collect::<Vec<_>>();
 
+    // The debug annotations can precede the function declarations which refer to them, and
+    // multiple declarations can refer to the same annotation
+    let mut unresolved_function_dbgrefs: HashMap<String, Vec<String>> = Default::default();
+    for s in stmts.iter() {
+        if let Statement::FuncDecl {
+            signature,
+            dbgref: Some(dbgref),
+            ..
+        } = s
+        {
+            let funcnames = unresolved_function_dbgrefs
+                .entry(dbgref.0.clone())
+                .or_default();
+            if !funcnames.contains(&signature.name.0) {
+                funcnames.push(signature.name.0.clone());
+            }
+        }
+    }
+
     // Index all definitions / declarations based on the actual parse tree
-    let mut unresolved_function_dbgrefs: HashMap<String, String> = Default::default();
     for s in stmts.iter() {
         match s {
             Statement::GlobalVar { name, def: _ } => {
                 index.add_global_spanned(SymbolKind::GlobalVar, UseDefKind::Def, name)
             }
-            Statement::FuncDecl {
-                signature, dbgref, ..
-            } => {
+            Statement::FuncDecl { signature, .. } => {
                 index.add_global_spanned(SymbolKind::Function, UseDefKind::Decl, &signature.name);
-                if let Some(dbgref) = dbgref {
-                    unresolved_function_dbgrefs.insert(dbgref.0.clone(), signature.name.0.clone());
-                }
             }
             Statement::FuncDependencies { .. } => {}
             Statement::DbgAnnotation { name, def } => {
@@ -229,14 +242,18 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
                         .insert(name.0.clone(), value.to_string());
                 }
                 // Recognize the filenames and numbers associated with function definitions
-                if let Some(funcname) = unresolved_function_dbgrefs.get(&name.0) {
+                for funcname in unresolved_function_dbgrefs
+                    .get(&name.0)
+                    .into_iter()
+                    .flatten()
+                {
                     if let [(Token::Str(dbgstr), _)] = &def[..] {
                         if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {
                             if let Ok(line) = linestr.parse::<u32>() {
                                 index
                                     .functions
-                                    .get_mut(funcname)
-                                    .unwrap()
+                                    .entry(funcname.clone())
+                                    .or_default()
                                     .external_defs
                                     .push(ExternalDef {
                                         filepath: filepath.to_string(),
-- 
2.43.0

