From d8639a28fd8959e4a5307236e641cc54320e99dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:40 +0000
Subject: [PATCH 01/10] fix: markdown parser took prose lines ending in a word
 for references

The bullet in the reference line pattern was not escaped, so any line of a
Covers or Depends paragraph that ends in a word was accepted as a reference
to that word instead of being reported as malformed.
---
 src/parsers/markdown.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 9d4023e..4c0f750 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -18,7 +18,7 @@ lazy_static! {
         Regex::new(r"^(#+)\s*(\p{XID_Start}\p{XID_Continue}+):\s*(.+?)\s*$").unwrap();
     static ref ATTRIBUTE_LINE: Regex = Regex::new(r"^([A-Z][a-z]+):\s*(.*)\s*$").unwrap();
     static ref REF_LINK_LINE: Regex =
-        Regex::new(r"^*\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
+        Regex::new(r"^\s*[*+-]\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
     static ref BAD_HEADLINE_UNDERLINE: Regex = Regex::new(r"^(====*)|(----*)").unwrap(); // TODO: use
 }
 
-- 
2.43.0


From e07e6863358969e518e193c4c1c247e31850a781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 02/10] fix: markdown parser lost the requirement before a last
 plain heading

A heading that is no requirement ended the current requirement without
committing it, so it was dropped if no other requirement followed.
---
 src/parsers/markdown.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 4c0f750..d5e5571 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -254,26 +254,25 @@ fn parse_state_eof(state: State, context: &mut Context<'_>) -> State {
 
 fn parse_state_heading(state: State, context: &mut Context<'_>) -> State {
     match state {
-        State::LookForReq => state,
-        State::LookForDesc => State::LookForReq,
+        State::LookForReq => {}
+        State::LookForDesc => {}
         State::CollectDesc(desc) => {
             commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
-            State::LookForReq
         }
         State::CollectDescNl(desc) => {
             commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
-            State::LookForReq
         }
-        State::LookForAttr => State::LookForReq,
+        State::LookForAttr => {}
         State::CollectTextAttr(attr, val) => {
             commit_attr(context, attr, val);
-            State::LookForReq
         }
         State::CollectRefLink(attr, vec) => {
             commit_link_attr(context, attr, vec);
-            State::LookForReq
         }
     }
+    // the heading ends the requirement
+    maybe_commit_req(context);
+    State::LookForReq
 }
 
 fn parse_state_req(state: State, context: &mut Context<'_>, req_line: &Captures<'_>) -> State {
-- 
2.43.0


From 3a374c12ba0d75c59fdd5b2ffdb3747bafa5db6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:44 +0000
Subject: [PATCH 03/10] fix: markdown parser dropped the first line of each
 further description paragraph

---
 src/parsers/markdown.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index d5e5571..942e95b 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -164,11 +164,12 @@ fn parse_state_line(state: State, line: &&str, context: &mut Context<'_>) -> Sta
             desc.push_str(line);
             State::CollectDesc(desc)
         }
-        State::CollectDescNl(desc) => {
+        State::CollectDescNl(mut desc) => {
             if let Some(attr_line) = ATTRIBUTE_LINE.captures(line) {
                 commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
                 start_attribute(context, &attr_line)
             } else {
+                desc.push_str(line);
                 State::CollectDesc(desc)
             }
         }
-- 
2.43.0


From 550f8fe783130f7cba1fa1779a5c442664f9439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:46 +0000
Subject: [PATCH 04/10] fix: markdown parser panicked on a last line of one
 character

A line is empty if it is a line ending, not if it is one byte long: files may
end in a line of one byte that has no line ending, and the line ending may be
two bytes long.
---
 src/parsers/markdown.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 942e95b..58db8db 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -90,12 +90,10 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
             Ok(0) => {
                 evt = Event::Eof;
             }
-            Ok(1) => {
-                assert!(line.starts_with('\n'));
-                evt = Event::Empty;
-            } /* TODO: Win line Endings */
             Ok(_) => {
-                if let Some(r) = REQUIREMENT_LINE.captures(&line) {
+                if line == "\n" || line == "\r\n" {
+                    evt = Event::Empty;
+                } else if let Some(r) = REQUIREMENT_LINE.captures(&line) {
                     req_line = r;
                     evt = Event::Req(&req_line);
                 } else if HEADING_LINE.is_match(&line) {
-- 
2.43.0


From 990de8003827b547c7906933e6b2a70d289a5460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 05/10] fix: markdown parser lost the last requirement before a
 read error

---
 src/parsers/markdown.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 58db8db..17d64c0 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -85,7 +85,7 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
                 let err = Error::Io(context.path.to_owned(), e.to_string());
                 log::info!("found problem {:#?}", &err);
                 context.errors.push(err);
-                break;
+                evt = Event::Eof; // keep what was read so far
             }
             Ok(0) => {
                 evt = Event::Eof;
-- 
2.43.0


From dbd4dcf979f1055a7239fd3e2474082d3b813beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:50 +0000
Subject: [PATCH 06/10] fix: mono requirement parser panicked on read errors

---
 src/parsers/monoreq.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index d2789ed..84326d9 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -42,7 +42,12 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
                 }
             }
 
-            Err(_) => todo!(),
+            Err(e) => {
+                let err = Error::io(path, &e);
+                log::info!("found problem {:#?}", &err);
+                errors.push(err);
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 0d17f56de4c4bd78dcee3535c0074c0eb0e98ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:52 +0000
Subject: [PATCH 07/10] fix: rust parser panicked on a coverage mark outside of
 any item with a scope

---
 src/parsers/rust.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index ca1a2bc..53748d1 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -168,7 +168,11 @@ impl Parser<'_> {
                     let covers = vec![reference];
                     let req = Requirement {
                         id,
-                        location: self.locations.last().unwrap().clone(),
+                        location: self
+                            .locations
+                            .last()
+                            .cloned()
+                            .unwrap_or_else(|| covers[0].location.clone()),
                         covers,
                         depends: vec![],
                         tags: vec![],
-- 
2.43.0


From ac0392dc26f68a603869456704aa1c5df7c516bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:55 +0000
Subject: [PATCH 08/10] fix: jobs with an unsupported combination of query and
 format panicked

---
 src/formatters/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/formatters/mod.rs b/src/formatters/mod.rs
index 56a3b63..52ec2ff 100644
--- a/src/formatters/mod.rs
+++ b/src/formatters/mod.rs
@@ -34,10 +34,17 @@ pub fn requirements(graph: &Graph, format: &Format, writer: &mut impl io::Write)
             ),
         )
         .map_err(io::Error::other),
-        _ => todo!(),
+        _ => Err(unsupported("requirements", format)),
     }
 }
 
+fn unsupported(what: &str, format: &Format) -> io::Error {
+    io::Error::new(
+        io::ErrorKind::Unsupported,
+        format!("can not write {what} as {format:?}"),
+    )
+}
+
 pub fn tracing(
     traced_graph: &TracedGraph,
     format: &Format,
@@ -52,6 +59,6 @@ pub fn tracing(
         }
         Format::Json => serde_json::to_writer_pretty(writer, &serialize::Trace::new(traced_graph))
             .map_err(io::Error::other),
-        _ => todo!(),
+        _ => Err(unsupported("tracing", format)),
     }
 }
-- 
2.43.0


From a479d6a7de73dca0b40bd153c6a44c0c40279923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:28 +0000
Subject: [PATCH 09/10] fix: config errors in artefacts and relations panicked
 or went unnoticed

A relation that names an unknown artefact ended in a panic, and of two
artefacts with the same id the first one was dropped silently. Both are
configuration errors, reported with exit code 2.
---
 src/controller.rs | 22 ++++++++++++++++++++++
 src/main.rs       |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/src/controller.rs b/src/controller.rs
index 764072a..39c9eb1 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -1,5 +1,6 @@
 use std::collections::btree_map;
 use std::collections::BTreeMap;
+use std::collections::BTreeSet;
 use std::fs;
 use std::io;
 use std::path::Path;
@@ -176,6 +177,27 @@ pub fn parse_from_config(
     (paths, requirements, errors)
 }
 
+/// Check that all artefacts have different ids and that the relations connect known artefacts
+pub fn validate_config(config: &Config) -> Result<(), Error> {
+    let mut ids = BTreeSet::new();
+    for ac in &config.artefacts {
+        if !ids.insert(&ac.id) {
+            return Err(Error::DuplicateArtefact(ac.id.to_string()));
+        }
+    }
+    for rel in &config.relations {
+        if !ids.contains(&rel.upper) {
+            return Err(Error::UnknownArtefact(rel.upper.clone()));
+        }
+        for lower in &rel.lower {
+            if !ids.contains(lower) {
+                return Err(Error::UnknownArtefact(lower.clone()));
+            }
+        }
+    }
+    Ok(())
+}
+
 #[derive(Debug)]
 pub struct Controller {
     base_dir: PathBuf,
diff --git a/src/main.rs b/src/main.rs
index e9f7a56..5f124fa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,7 @@
 //! Requirement Tracing Tool
 
 use clap::Parser;
+use reqtrace::controller::validate_config;
 use reqtrace::controller::Controller;
 use reqtrace::controller::JobSuccess;
 use reqtrace::models::Config;
@@ -91,6 +92,8 @@ fn get_config(opt: &Arguments) -> Result<Config, Box<dyn std::error::Error>> {
         }
     }
 
+    validate_config(&config).map_err(|e| format!("{}: {}", opt.config_file.display(), e))?;
+
     Ok(config)
 }
 
-- 
2.43.0


From 10e7bb7384f41560ce02c0881a5ea34f579bf37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:57 +0000
Subject: [PATCH 10/10] fix: markdown parser joined the first two lines of a
 text attribute

---
 src/parsers/markdown.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 17d64c0..d379028 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -189,6 +189,9 @@ fn parse_state_line(state: State, line: &&str, context: &mut Context<'_>) -> Sta
                 commit_attr(context, attr, val);
                 start_attribute(context, &attr_line)
             } else {
+                if !val.is_empty() && !val.ends_with('\n') {
+                    val.push('\n'); // the line of the attribute's name comes without line break
+                }
                 val.push_str(line);
                 State::CollectTextAttr(attr, val)
             }
-- 
2.43.0

