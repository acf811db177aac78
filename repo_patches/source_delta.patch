From a0f44425504be46bd58a428c72910d481738d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:35 +0000
Subject: [PATCH 01/17] fix: keep the first line of each further description
 paragraph

A description line that follows a blank line was swallowed when it did not
start an attribute.
---
 src/parsers/markdown.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 9d4023e..c5aa85d 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -164,11 +164,12 @@ fn parse_state_line(state: State, line: &&str, context: &mut Context<'_>) -> Sta
             desc.push_str(line);
             State::CollectDesc(desc)
         }
-        State::CollectDescNl(desc) => {
+        State::CollectDescNl(mut desc) => {
             if let Some(attr_line) = ATTRIBUTE_LINE.captures(line) {
                 commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
                 start_attribute(context, &attr_line)
             } else {
+                desc.push_str(line);
                 State::CollectDesc(desc)
             }
         }
-- 
2.43.0


From 7d8202577848e4e6d1967f61be1475906c264694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:07 +0000
Subject: [PATCH 02/17] fix: keep a requirement that is followed by a plain
 heading

A requirement that was ended by a heading was only kept if another
requirement followed in the same file.
---
 src/parsers/markdown.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index c5aa85d..91199e9 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -119,7 +119,12 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
 fn parse_states(state: State, context: &mut Context<'_>, evt: &Event<'_>) -> State {
     match evt {
         Event::Req(req_line) => parse_state_req(state, context, req_line),
-        Event::Heading => parse_state_heading(state, context),
+        Event::Heading => {
+            let state = parse_state_heading(state, context);
+            // a heading ends the requirement, there might not be another one to commit it
+            maybe_commit_req(context);
+            state
+        }
         Event::Eof => parse_state_eof(state, context),
         Event::Line(line) => parse_state_line(state, line, context),
         Event::Empty => parse_state_empty(state, context),
-- 
2.43.0


From bc4ae3cd8c9bb9abdd7d66907e74e651f97e8179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:08 +0000
Subject: [PATCH 03/17] fix: treat every whitespace-only line of a markdown
 file as blank

A last line of one character without line ending crashed the parser, and
blank lines with Windows line endings did not end a paragraph, so the
attributes after a description were lost.
---
 src/parsers/markdown.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 91199e9..2245650 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -90,10 +90,9 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
             Ok(0) => {
                 evt = Event::Eof;
             }
-            Ok(1) => {
-                assert!(line.starts_with('\n'));
+            Ok(_) if line.trim().is_empty() => {
                 evt = Event::Empty;
-            } /* TODO: Win line Endings */
+            }
             Ok(_) => {
                 if let Some(r) = REQUIREMENT_LINE.captures(&line) {
                     req_line = r;
-- 
2.43.0


From d95c759e67f04211fe00ea5cc5706e3d531c5ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:27 +0000
Subject: [PATCH 04/17] fix: replace encoding errors when reading markdown
 files

One invalid UTF-8 byte ended the parse of the file and dropped the
requirement that was being read (FMT_FILE_ENCODINGS).
---
 src/parsers/markdown.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 2245650..914eee0 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -72,20 +72,22 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
         level: 0,
     };
 
-    let mut line = String::new();
+    let mut bytes = Vec::new();
     let mut state = State::LookForReq;
     loop {
         let evt: Event<'_>;
         let req_line;
 
-        line.clear();
+        bytes.clear();
         context.line_number += 1;
-        match reader.read_line(&mut line) {
+        let read = reader.read_until(b'\n', &mut bytes);
+        let line = String::from_utf8_lossy(&bytes);
+        match read {
             Err(e) => {
                 let err = Error::Io(context.path.to_owned(), e.to_string());
                 log::info!("found problem {:#?}", &err);
                 context.errors.push(err);
-                break;
+                evt = Event::Eof;
             }
             Ok(0) => {
                 evt = Event::Eof;
-- 
2.43.0


From dd23d7cf302582189681e7a86c0d388d725773f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:37 +0000
Subject: [PATCH 05/17] fix: keep the line break after the first line of a text
 attribute

The text on the attribute's own line was glued to the next line.
---
 src/parsers/markdown.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 914eee0..2301fdf 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -404,7 +404,11 @@ fn start_attribute(context: &mut Context<'_>, attr_line: &Captures<'_>) -> State
                 log::info!("found problem {:#?}", &err);
                 context.errors.push(err);
             }
-            State::CollectTextAttr(attr.to_owned(), first_line.to_owned())
+            let mut val = first_line.to_owned();
+            if !val.is_empty() {
+                val.push('\n');
+            }
+            State::CollectTextAttr(attr.to_owned(), val)
         }
     }
 }
-- 
2.43.0


From 44a025786f15b0a0685c2d59449825de221a0300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:49 +0000
Subject: [PATCH 06/17] fix: only accept bullet points as references

The unanchored pattern took the last word of any line of the list as
reference, so that `* REQ_A, REQ_B` silently lost REQ_A and prose created
references.
---
 src/parsers/markdown.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 2301fdf..e97075d 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -18,7 +18,7 @@ lazy_static! {
         Regex::new(r"^(#+)\s*(\p{XID_Start}\p{XID_Continue}+):\s*(.+?)\s*$").unwrap();
     static ref ATTRIBUTE_LINE: Regex = Regex::new(r"^([A-Z][a-z]+):\s*(.*)\s*$").unwrap();
     static ref REF_LINK_LINE: Regex =
-        Regex::new(r"^*\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
+        Regex::new(r"^\s*[*+-]\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
     static ref BAD_HEADLINE_UNDERLINE: Regex = Regex::new(r"^(====*)|(----*)").unwrap(); // TODO: use
 }
 
-- 
2.43.0


From c269c4acac2d635dafa167043ccb95ceda585ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:07 +0000
Subject: [PATCH 07/17] fix: replace encoding errors when reading mono
 requirement files

Invalid UTF-8 or a read error crashed the tool (FMT_FILE_ENCODINGS).
---
 src/parsers/monoreq.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index d2789ed..9c14dc9 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -23,9 +23,11 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
 
     requirement_covered!(FMT_IMPORT_MONO_REQ, "Single Requirement Per File");
 
-    for (no, line) in reader.lines().enumerate() {
+    for (no, line) in reader.split(b'\n').enumerate() {
         match line {
             Ok(line) => {
+                let line = String::from_utf8_lossy(&line);
+                let line = line.trim_end_matches('\r').to_owned();
                 if title.is_none() {
                     title = Some(line);
                 } else if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
@@ -42,7 +44,12 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
                 }
             }
 
-            Err(_) => todo!(),
+            Err(err) => {
+                let err = Error::io(path, &err);
+                log::info!("found problem {:#?}", &err);
+                errors.push(err);
+                break;
+            }
         }
     }
 
-- 
2.43.0


From eadd32618416adfb53600727dce70a15b33a9643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:18 +0000
Subject: [PATCH 08/17] fix: take the title of a mono requirement as documented

FMT_IMPORT_MONO_REQ: the first line with word characters, trimmed; and
references count on that line, too.
---
 src/parsers/monoreq.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index 9c14dc9..6dee751 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -16,6 +16,10 @@ lazy_static! {
         Regex::new(r"=>\s*(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
 }
 
+fn is_word_char(c: char) -> bool {
+    c.is_alphanumeric() || c == '_'
+}
+
 pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, Vec<Error>) {
     let mut errors = Vec::<Error>::new();
     let mut title = None;
@@ -28,9 +32,10 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
             Ok(line) => {
                 let line = String::from_utf8_lossy(&line);
                 let line = line.trim_end_matches('\r').to_owned();
-                if title.is_none() {
-                    title = Some(line);
-                } else if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
+                if title.is_none() && line.contains(is_word_char) {
+                    title = Some(line.trim_matches(|c| !is_word_char(c)).to_owned());
+                }
+                if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
                     let id = ref_link[1].into();
                     let referenced_title = ref_link.get(2).map(|m| m.as_str().to_owned());
                     let location = Location::new_with_line_no(path.to_path_buf(), no + 1);
-- 
2.43.0


From 9c32ba23e9f22841f38f0b8901a1aee963191150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:45 +0000
Subject: [PATCH 09/17] fix: collect all coverage marks of a rust item

Marks after a nested item started a second requirement with the same id,
which was then dropped as duplicate together with its coverage.
---
 src/parsers/rust.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index ca1a2bc..9bfc593 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -160,9 +160,9 @@ impl Parser<'_> {
             // TODO: add info from path of source file to make symbols unique
             let id = self.scope.join("::").into();
 
-            match self.requirements.last_mut() {
-                Some(last) if last.id == id => {
-                    Rc::get_mut(last).unwrap().covers.push(reference);
+            match self.requirements.iter_mut().find(|r| r.id == id) {
+                Some(req) => {
+                    Rc::get_mut(req).unwrap().covers.push(reference);
                 }
                 _ => {
                     let covers = vec![reference];
-- 
2.43.0


From 9f5ba6cda26fdb5538b5e66805c0fa7b8a9dcced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:46 +0000
Subject: [PATCH 10/17] fix: report coverage marks outside of a named rust item

A mark in the initializer of a top level constant crashed the tool.
---
 src/parsers/rust.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index 9bfc593..7dfbe9d 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -157,6 +157,16 @@ impl Parser<'_> {
                 location: macro_location,
             };
 
+            let Some(location) = self.locations.last() else {
+                let err = Error::Format(
+                    reference.location,
+                    "requirement_covered!() outside of a named item".to_owned(),
+                );
+                log::info!("found problem {:#?}", &err);
+                self.errors.push(err);
+                return true;
+            };
+
             // TODO: add info from path of source file to make symbols unique
             let id = self.scope.join("::").into();
 
@@ -168,7 +178,7 @@ impl Parser<'_> {
                     let covers = vec![reference];
                     let req = Requirement {
                         id,
-                        location: self.locations.last().unwrap().clone(),
+                        location: location.clone(),
                         covers,
                         depends: vec![],
                         tags: vec![],
-- 
2.43.0


From e6fb251eae389027fbf5a3dcf7a841e4081b1e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:23 +0000
Subject: [PATCH 11/17] fix: unescape the string literals of coverage marks

Quotes were removed and escapes kept, so a title with a quote or backslash
could never match, and raw strings were rejected.
---
 src/parsers/rust.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index 7dfbe9d..921cb87 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -93,10 +93,8 @@ impl Parser<'_> {
                 if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
                     Some((id.to_string(), None))
                 } else {
-                    let mut id = tokens[0].to_string();
-                    if id.starts_with('"') && id.ends_with('"') {
+                    if let Some(id) = string_literal(&tokens[0]) {
                         // requirement_covered!("REQU_ID")
-                        id = id.replace('"', ""); // TODO: better string parsing?
                         Some((id, None))
                     } else {
                         let err = Error::Format(
@@ -114,9 +112,7 @@ impl Parser<'_> {
             3 => {
                 // requirement_covered!(IDENT,"string_literal")
                 if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
-                    let mut title = tokens[2].to_string(); // a literal String
-                    if title.starts_with('"') && title.ends_with('"') {
-                        title = title.replace('"', ""); // TODO: better string parsing?
+                    if let Some(title) = string_literal(&tokens[2]) {
                         Some((id.to_string(), Some(title)))
                     } else {
                         // requirement_covered!(IDENT,17)
@@ -269,6 +265,11 @@ impl<'ast> Visit<'ast> for Parser<'ast> {
     }
 }
 
+fn string_literal(token: &proc_macro2::TokenTree) -> Option<String> {
+    let lit: syn::LitStr = syn::parse2(token.to_token_stream()).ok()?;
+    Some(lit.value())
+}
+
 fn location_from_span(path: &Path, span: &Span) -> Location {
     let start = span.start();
     Location::new_with_line_and_column(path.to_path_buf(), start.line, start.column)
-- 
2.43.0


From fcb5717e485389a5133245bf9c1dc51d83fbf369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 12/17] fix: reject duplicate and unknown artefacts in the
 config

An unknown artefact in a relation crashed the tool, and of two artefacts
with the same id one was silently ignored. Both now end with return code 2.
---
 src/main.rs   |  4 ++++
 src/models.rs | 21 +++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index e9f7a56..090235c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -91,6 +91,10 @@ fn get_config(opt: &Arguments) -> Result<Config, Box<dyn std::error::Error>> {
         }
     }
 
+    config
+        .validate()
+        .map_err(|e| format!("{}: {}", opt.config_file.display(), e))?;
+
     Ok(config)
 }
 
diff --git a/src/models.rs b/src/models.rs
index fd65980..a27fd17 100644
--- a/src/models.rs
+++ b/src/models.rs
@@ -3,6 +3,7 @@
 use core::fmt;
 use std::cmp::Ordering;
 use std::collections::BTreeMap;
+use std::collections::BTreeSet;
 use std::io;
 use std::path::PathBuf;
 use std::rc::Rc;
@@ -83,6 +84,26 @@ pub struct Config {
     pub default_jobs: Option<Vec<String>>,
 }
 
+impl Config {
+    /// Check that artefact ids are unique and all relations are between known artefacts
+    pub fn validate(&self) -> Result<(), Error> {
+        let mut ids = BTreeSet::new();
+        for art in &self.artefacts {
+            if !ids.insert(&art.id) {
+                return Err(Error::DuplicateArtefact(art.id.to_string()));
+            }
+        }
+        for rel in &self.relations {
+            for id in std::iter::once(&rel.upper).chain(&rel.lower) {
+                if !ids.contains(id) {
+                    return Err(Error::UnknownArtefact(id.clone()));
+                }
+            }
+        }
+        Ok(())
+    }
+}
+
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub enum Query {
     /// Parse all Artefacts
-- 
2.43.0


From a48f93ad378f38969689b200052819b29abfb09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:28 +0000
Subject: [PATCH 13/17] fix: report unsupported combinations of query and
 format

They crashed the tool, now they end with return code 2.
---
 src/formatters/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/formatters/mod.rs b/src/formatters/mod.rs
index 56a3b63..d3f6929 100644
--- a/src/formatters/mod.rs
+++ b/src/formatters/mod.rs
@@ -34,7 +34,7 @@ pub fn requirements(graph: &Graph, format: &Format, writer: &mut impl io::Write)
             ),
         )
         .map_err(io::Error::other),
-        _ => todo!(),
+        _ => Err(unsupported(format)),
     }
 }
 
@@ -52,6 +52,13 @@ pub fn tracing(
         }
         Format::Json => serde_json::to_writer_pretty(writer, &serialize::Trace::new(traced_graph))
             .map_err(io::Error::other),
-        _ => todo!(),
+        _ => Err(unsupported(format)),
     }
 }
+
+fn unsupported(format: &Format) -> io::Error {
+    io::Error::new(
+        io::ErrorKind::Unsupported,
+        format!("format {format:?} is not supported for this query"),
+    )
+}
-- 
2.43.0


From 02ed40fb88c074979e1e6565cf4b7b785ced036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:21 +0000
Subject: [PATCH 14/17] fix: report output that could not be flushed

The last, unterminated line of a report on stdout stays in a buffer, and an
error when writing it at exit was ignored.
---
 src/controller.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index 764072a..f239236 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -392,7 +392,9 @@ impl Controller {
             }
         };
 
-        write_res.map_err(|e| ControllerError::Io(job.file.clone(), e.to_string()))?;
+        write_res
+            .and_then(|()| out.flush())
+            .map_err(|e| ControllerError::Io(job.file.clone(), e.to_string()))?;
 
         match success {
             JobSuccess::Success => {
-- 
2.43.0


From 3e6977de81b81643572736d2e4890093dfc983b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:38 +0000
Subject: [PATCH 15/17] fix: report source files that are not found and keep
 the others

A missing file of a rust artefact was silently ignored, one bad path
dropped all files of the artefact, and a base directory with glob
characters hid all of them.
---
 src/controller.rs | 79 ++++++++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 35 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index f239236..ba0ea8a 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -34,23 +34,41 @@ pub enum JobSuccess {
     ErrorsDetected,
 }
 
-fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Error> {
+fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>) {
     let mut result = Vec::new();
+    let mut errors = Vec::new();
 
     for path in paths {
         let glob = if Path::new(path).is_relative() {
-            glob::glob(&format!("{}/{}", base_dir.display(), path))
+            let base_dir = glob::Pattern::escape(&base_dir.display().to_string());
+            glob::glob(&format!("{base_dir}/{path}"))
         } else {
             glob::glob(path)
         };
-        let glob = glob.map_err(|e| Error::Io(PathBuf::from(path), e.to_string()))?;
+        let glob = match glob {
+            Ok(glob) => glob,
+            Err(e) => {
+                errors.push(Error::Io(PathBuf::from(path), e.to_string()));
+                continue;
+            }
+        };
+        let mut found = false;
         for entry in glob {
-            let entry = entry.map_err(|e| Error::Io(e.path().into(), e.to_string()))?;
-            result.push(entry);
+            found = true;
+            match entry {
+                Ok(entry) => result.push(entry),
+                Err(e) => errors.push(Error::Io(e.path().into(), e.to_string())),
+            }
+        }
+        if !found && !path.contains(['*', '?', '[']) {
+            errors.push(Error::Io(PathBuf::from(path), "file not found".to_owned()));
         }
     }
 
-    Ok(result)
+    for err in &errors {
+        log::info!("found problem {err:#?}");
+    }
+    (result, errors)
 }
 
 fn parse_single_file(
@@ -107,38 +125,29 @@ fn parse_multiple_files(
         return (vec![], vec![], vec![err]);
     }
 
-    match glob_paths(&config.paths, base_dir) {
-        Err(err) => (
-            config.paths.iter().map(PathBuf::from).collect(),
-            vec![],
-            vec![err],
-        ),
-        Ok(paths) => {
-            let mut requirements = Vec::new();
-            let mut errors = Vec::new();
-            for path in &paths {
-                requirement_covered!(DSG_ART_FILES);
-                match fs::File::open(path) {
-                    Err(err) => {
-                        let err = Error::Io(path.into(), err.to_string());
-                        log::info!("found problem {:#?}", &err);
-                        errors.push(err)
-                    }
-                    Ok(file) => {
-                        let mut r = io::BufReader::new(file);
-
-                        let (r, e) = match config.parser {
-                            ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
-                            _ => panic!("unexpected {:?}", config.parser),
-                        };
-                        requirements.extend(r);
-                        errors.extend(e);
-                    }
-                }
+    let (paths, mut errors) = glob_paths(&config.paths, base_dir);
+    let mut requirements = Vec::new();
+    for path in &paths {
+        requirement_covered!(DSG_ART_FILES);
+        match fs::File::open(path) {
+            Err(err) => {
+                let err = Error::Io(path.into(), err.to_string());
+                log::info!("found problem {:#?}", &err);
+                errors.push(err)
+            }
+            Ok(file) => {
+                let mut r = io::BufReader::new(file);
+
+                let (r, e) = match config.parser {
+                    ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
+                    _ => panic!("unexpected {:?}", config.parser),
+                };
+                requirements.extend(r);
+                errors.extend(e);
             }
-            (paths, requirements, errors)
         }
     }
+    (paths, requirements, errors)
 }
 
 pub fn parse_from_config(
-- 
2.43.0


From 5b882feee9cf7ea00c17d6678fa9a529d6ae53df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 16/17] fix: import the json objects that are documented and
 exported

Only a bare list of requirements was accepted (FMT_IMPORT_JSON).
---
 src/controller.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index ba0ea8a..a5932e5 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -71,6 +71,27 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>
     (result, errors)
 }
 
+/// The object that the Json formatter emits for a list of requirements
+#[derive(serde::Deserialize)]
+struct JsonRequirements {
+    #[serde(rename = "version")]
+    _version: u32,
+    requirements: Vec<Rc<Requirement>>,
+}
+
+fn parse_json(mut reader: impl io::BufRead) -> serde_json::Result<Vec<Rc<Requirement>>> {
+    let mut text = Vec::new();
+    reader
+        .read_to_end(&mut text)
+        .map_err(serde_json::Error::io)?;
+    if text.trim_ascii_start().starts_with(b"{") {
+        let object: JsonRequirements = serde_json::from_slice(&text)?;
+        Ok(object.requirements)
+    } else {
+        serde_json::from_slice(&text)
+    }
+}
+
 fn parse_single_file(
     config: &ArtefactConfig,
     base_dir: &Path,
@@ -98,7 +119,7 @@ fn parse_single_file(
             let (reqs, errs) = match &config.parser {
                 ArtefactParser::Markdown => parsers::markdown::parse(&mut r, &path),
                 ArtefactParser::MonoRequirement => parsers::monoreq::parse(&mut r, &path),
-                ArtefactParser::Json => match serde_json::from_reader(r) {
+                ArtefactParser::Json => match parse_json(r) {
                     Ok(reqs) => (reqs, vec![]),
                     Err(err) => {
                         let err =
-- 
2.43.0


From 7d96e5d424b59f3a75709fb2496494ff2f497192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:53 +0000
Subject: [PATCH 17/17] fix: collect every reference of a mono requirement file

The format is documented as every requirement id that follows a fat arrow,
but only an id at the end of a line was found.
---
 src/parsers/monoreq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index 6dee751..4960a80 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -13,7 +13,7 @@ use crate::models::Requirement;
 
 lazy_static! {
     static ref REF_LINK_LINE: Regex =
-        Regex::new(r"=>\s*(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
+        Regex::new(r"=>\s*(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?)\s*$)?").unwrap();
 }
 
 fn is_word_char(c: char) -> bool {
@@ -35,7 +35,7 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
                 if title.is_none() && line.contains(is_word_char) {
                     title = Some(line.trim_matches(|c| !is_word_char(c)).to_owned());
                 }
-                if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
+                for ref_link in REF_LINK_LINE.captures_iter(&line) {
                     let id = ref_link[1].into();
                     let referenced_title = ref_link.get(2).map(|m| m.as_str().to_owned());
                     let location = Location::new_with_line_no(path.to_path_buf(), no + 1);
-- 
2.43.0

