From 311a54431509ff5c5c6c3480daf5b6beb6af0633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 01/41] fix: do not lose queued work when workers race to quit

---
 src/worker_pool.rs | 119 +++++++++++++--------------------------------
 1 file changed, 33 insertions(+), 86 deletions(-)

diff --git a/src/worker_pool.rs b/src/worker_pool.rs
index fe1dbfb..0778548 100644
--- a/src/worker_pool.rs
+++ b/src/worker_pool.rs
@@ -9,12 +9,6 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 use std::thread;
 use std::time::Duration;
 
-#[derive(Debug)]
-enum Message {
-    Work(Work),
-    Quit,
-}
-
 #[derive(Debug)]
 enum WorkResult {
     MoreWork(Vec<Work>),
@@ -119,20 +113,29 @@ impl Work {
     }
 }
 
+/// Counts a unit of work as finished when dropped, even if running it panics, so the other workers
+/// never wait on it forever.
+struct FinishOnDrop<'a>(&'a AtomicUsize);
+
+impl Drop for FinishOnDrop<'_> {
+    fn drop(&mut self) {
+        self.0.fetch_sub(1, Ordering::SeqCst);
+    }
+}
+
 struct Worker<'a> {
     pool: &'a WorkerPool,
-    is_waiting: bool,
-    is_quitting: bool,
     aggregate: WorkAggregateResult,
-    num_waiting: &'a AtomicUsize,
-    num_quitting: &'a AtomicUsize,
-    tx: channel::Sender<Message>,
-    rx: channel::Receiver<Message>,
+    /// Units of work that are either queued or being run
+    num_unfinished: &'a AtomicUsize,
+    tx: channel::Sender<Work>,
+    rx: channel::Receiver<Work>,
 }
 
 impl<'a> Worker<'a> {
     fn run(mut self) -> WorkAggregateResult {
         while let Some(work) = self.pop_work() {
+            let _finish_on_drop = FinishOnDrop(self.num_unfinished);
             match work.run(&self.pool.compile_config, &self.pool.schema) {
                 WorkResult::CompileResult {
                     global_types_used,
@@ -143,7 +146,7 @@ impl<'a> Worker<'a> {
                 }
                 WorkResult::MoreWork(additional_work) => {
                     for work in additional_work {
-                        self.tx.send(Message::Work(work)).unwrap();
+                        self.push_work(work);
                     }
                 }
                 WorkResult::DirIoError(io_error, path) => {
@@ -156,77 +159,24 @@ impl<'a> Worker<'a> {
         self.aggregate
     }
 
-    fn pop_work(&mut self) -> Option<Work> {
+    fn push_work(&self, work: Work) {
+        self.num_unfinished.fetch_add(1, Ordering::SeqCst);
+        self.tx.send(work).unwrap();
+    }
+
+    fn pop_work(&self) -> Option<Work> {
         loop {
             match self.rx.try_recv() {
-                Ok(Message::Work(work)) => {
-                    self.set_waiting(false);
-                    self.set_quitting(false);
-                    return Some(work);
-                }
-                Ok(Message::Quit) => {
-                    self.set_waiting(true);
-                    self.set_quitting(true);
-                    loop {
-                        let nwait = self.num_waiting();
-                        let nquit = self.num_quitting();
-                        let threads = self.pool.thread_count;
-                        // If the number of waiting workers dropped, then abort our attempt to quit.
-                        // Sometimes work will come back.
-                        if nwait < threads {
-                            break;
-                        }
-                        // If all workers are in this quit loop, then we can stop.
-                        if nquit == threads {
-                            return None;
-                        }
-                    }
-                }
-                Err(_) => {
-                    let threads = self.pool.thread_count;
-                    self.set_waiting(true);
-                    self.set_quitting(false);
-                    if self.num_waiting() == threads {
-                        for _ in 0..threads {
-                            self.tx.send(Message::Quit).unwrap();
-                        }
-                    } else {
-                        // This is a bit weird, I know, but we want producers to catch up
-                        // without burning the CPU too hard.
-                        thread::sleep(Duration::from_millis(1));
-                    }
-                }
+                Ok(work) => return Some(work),
+                // Work is counted before it's queued and until it has queued all of its
+                // additional work, so there will never be any more.
+                Err(_) if self.num_unfinished.load(Ordering::SeqCst) == 0 => return None,
+                // This is a bit weird, I know, but we want producers to catch up
+                // without burning the CPU too hard.
+                Err(_) => thread::sleep(Duration::from_millis(1)),
             }
         }
     }
-
-    fn num_waiting(&self) -> usize {
-        self.num_waiting.load(Ordering::SeqCst)
-    }
-
-    fn num_quitting(&self) -> usize {
-        self.num_quitting.load(Ordering::SeqCst)
-    }
-
-    fn set_waiting(&mut self, desired: bool) {
-        if desired && !self.is_waiting {
-            self.is_waiting = true;
-            self.num_waiting.fetch_add(1, Ordering::SeqCst);
-        } else if !desired && self.is_waiting {
-            self.is_waiting = false;
-            self.num_waiting.fetch_sub(1, Ordering::SeqCst);
-        }
-    }
-
-    fn set_quitting(&mut self, desired: bool) {
-        if desired && !self.is_quitting {
-            self.is_quitting = true;
-            self.num_quitting.fetch_add(1, Ordering::SeqCst);
-        } else if !desired && self.is_quitting {
-            self.is_quitting = false;
-            self.num_quitting.fetch_sub(1, Ordering::SeqCst);
-        }
-    }
 }
 
 pub struct WorkerPool {
@@ -247,23 +197,20 @@ impl WorkerPool {
     }
 
     pub fn work(&self) -> impl ExitInformation {
-        let num_waiting = AtomicUsize::new(0);
-        let num_quitting = AtomicUsize::new(0);
+        // The initial work below
+        let num_unfinished = AtomicUsize::new(1);
 
         let mut aggregate = thread::scope(|s| {
             let (tx, rx) = channel::unbounded();
-            let initial_work = Message::Work(Work::DirEntry(self.root_dir_path.clone()));
+            let initial_work = Work::DirEntry(self.root_dir_path.clone());
             tx.send(initial_work).unwrap();
 
             let handles = (0..self.thread_count)
                 .map(|_| {
                     let worker = Worker {
                         pool: self,
-                        num_quitting: &num_quitting,
-                        num_waiting: &num_waiting,
                         aggregate: WorkAggregateResult::new(),
-                        is_quitting: false,
-                        is_waiting: false,
+                        num_unfinished: &num_unfinished,
                         tx: tx.clone(),
                         rx: rx.clone(),
                     };
-- 
2.43.0


From b8e210989b0d65bf9f6cb40ce09d98e575feb361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 02/41] fix: do not panic on an import without a closing quote

---
 src/graphql.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index a07afad..30d4661 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -104,10 +104,10 @@ fn get_file_path_of_fragment(
     import_comment: &str,
     current_dir: &Path,
 ) -> PathBuf {
-    let last_quote = import_comment
+    let after_quote = &import_comment[IMPORT_START.len()..];
+    let import_path = after_quote
         .rfind('"')
-        .unwrap_or(import_comment.len() - 1);
-    let import_path = &import_comment[IMPORT_START.len()..last_quote];
+        .map_or(after_quote, |last_quote| &after_quote[..last_quote]);
 
     config
         .root_dir_import_prefix
-- 
2.43.0


From dff10e9e05619e3e5324ea3b6fa6c79dafd0fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 03/41] fix: terminate on import cycles and visit repeated
 imports once

---
 src/graphql.rs | 74 ++++++++++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 30d4661..e88e267 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -125,44 +125,52 @@ fn get_file_path_of_fragment(
 
 fn add_imported_fragments(
     config: &CompileConfig,
-    current_file: &Path,
-    current_file_contents: &str,
+    root_file: &Path,
+    root_file_contents: &str,
     import_contents: &mut HashMap<PathBuf, (String, LocationInformation)>,
     messages: &mut Vec<PrintableMessage>,
 ) {
-    let mut current_dir = current_file.to_owned();
-    current_dir.pop();
-    for (line_index, line) in current_file_contents.lines().enumerate() {
-        if line.is_empty() || line.trim().is_empty() {
-            continue;
-        }
-        let doesnt_start_with_import = !line.starts_with(IMPORT_START);
-        if doesnt_start_with_import && line.starts_with('#') {
-            // We keep going for comments
-            continue;
-        } else if doesnt_start_with_import {
-            // Stop reading lines as soon as we find a non-comment, non-empty line
-            break;
-        }
-        let location =
-            LocationInformation::new_from_line_and_column(line_index + 1, line, IMPORT_START.len());
-        let file_path = get_file_path_of_fragment(config, line, &current_dir);
-        let other_file_contents = match read_graphql_file(&file_path) {
-            Ok(c) => c,
-            Err(mut sub_message) => {
-                sub_message.with_source_information(current_file, Some(location));
-                messages.push(sub_message);
+    // Imports can be repeated or even cyclic, so every file is only visited once
+    let mut visited = HashSet::new();
+    let mut pending = vec![(root_file.to_owned(), root_file_contents.to_owned())];
+    while let Some((current_file, current_file_contents)) = pending.pop() {
+        let mut current_dir = current_file.clone();
+        current_dir.pop();
+        for (line_index, line) in current_file_contents.lines().enumerate() {
+            if line.is_empty() || line.trim().is_empty() {
                 continue;
             }
-        };
-        add_imported_fragments(
-            config,
-            &file_path,
-            &other_file_contents,
-            import_contents,
-            messages,
-        );
-        import_contents.insert(file_path, (other_file_contents, location));
+            let doesnt_start_with_import = !line.starts_with(IMPORT_START);
+            if doesnt_start_with_import && line.starts_with('#') {
+                // We keep going for comments
+                continue;
+            } else if doesnt_start_with_import {
+                // Stop reading lines as soon as we find a non-comment, non-empty line
+                break;
+            }
+            let file_path = get_file_path_of_fragment(config, line, &current_dir);
+            let location = LocationInformation::new_from_line_and_column(
+                line_index + 1,
+                line,
+                IMPORT_START.len(),
+            );
+            let other_file_contents = match read_graphql_file(&file_path) {
+                Ok(c) => c,
+                Err(mut sub_message) => {
+                    sub_message.with_source_information(&current_file, Some(location));
+                    messages.push(sub_message);
+                    continue;
+                }
+            };
+            let canonical_path = file_path
+                .canonicalize()
+                .unwrap_or_else(|_| file_path.clone());
+            if !visited.insert(canonical_path) {
+                continue;
+            }
+            pending.push((file_path.clone(), other_file_contents.clone()));
+            import_contents.insert(file_path, (other_file_contents, location));
+        }
     }
 }
 
-- 
2.43.0


From 03eb5f1914fa92101326ddbb76b60f49b933234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 04/41] fix: report spreads of cyclic or erroneous fragments
 instead of overflowing or dropping their fields

---
 src/graphql/ir.rs | 79 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 29 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index c726853..23e5e4a 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -89,6 +89,7 @@ impl ForeignFragmentJumpState {
 pub enum Error {
     SelectionSetAsOperationUnsupported(Pos),
     UnknownFragment(String, Pos, Vec<String>),
+    InvalidFragment(String, Pos),
     MissingTypeConditionOnInlineFragment(Pos),
     SelectionSetOnWrongType(String, Pos),
     MissingSelectionSetOnType(String, Pos),
@@ -134,6 +135,13 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     Some(&format!("This fragment name doesn't appear to be in scope.{extra}")),
                 )
             }
+            Error::InvalidFragment(name, position) => PrintableMessage::new_compile_error(
+                &format!("cannot spread fragment `{name}`"),
+                file_path,
+                contents,
+                &position,
+                Some("This fragment has errors or it ends up spreading itself. Check the document that defines it."),
+            ),
             Error::MissingTypeConditionOnInlineFragment(position) => PrintableMessage::new_compile_error(
                 "fragment missing type condition on inline fragment",
                 file_path,
@@ -207,6 +215,8 @@ pub struct CompileContext<'a, 'b> {
     pub schema: &'a schema::Schema,
     show_deprecation_warnings: bool,
     imported_fragments: ImportedFragments<'b>,
+    /// Names of the imported fragments we are currently inside of, to detect cycles
+    active_spreads: std::cell::RefCell<Vec<String>>,
     warnings: std::cell::RefCell<Vec<Warning>>,
 }
 
@@ -523,6 +533,7 @@ impl<'a, 'b> Operation<'a> {
             schema,
             show_deprecation_warnings,
             imported_fragments,
+            active_spreads: std::cell::RefCell::new(Vec::new()),
             warnings: std::cell::RefCell::new(Vec::new()),
         };
         let operation = match definition {
@@ -715,6 +726,10 @@ fn collect_fields_from_selection_set<'a, 'b>(
 ) -> ResultMany<()> {
     let mut errors = Vec::new();
     for selection in &selection_set.items {
+        // A foreign fragment with any error can't be spread, so there is no need for all of them.
+        if !jump_state.is_local() && !errors.is_empty() {
+            break;
+        }
         let (spread_type_name, spread_position, sub_selection_set, new_jump_state) = match selection
         {
             parsed_query::Selection::Field(selection_field) => {
@@ -742,7 +757,12 @@ fn collect_fields_from_selection_set<'a, 'b>(
                 }
             }
             parsed_query::Selection::FragmentSpread(spread) => {
-                match context.imported_fragments.get(&spread.fragment_name) {
+                let name = &spread.fragment_name;
+                match context.imported_fragments.get(name) {
+                    Some(_) if context.active_spreads.borrow().contains(name) => {
+                        errors.push(Error::InvalidFragment(name.clone(), spread.position));
+                        continue;
+                    }
                     Some(fragment_def) => {
                         let parsed_query::TypeCondition::On(ref type_name) =
                             fragment_def.type_condition;
@@ -764,36 +784,37 @@ fn collect_fields_from_selection_set<'a, 'b>(
                 }
             }
         };
-        // Below we only add errors when in local file. We don't want to spam duplicate messages
-        // that will just be repeated when we compile the foreign fragment anyway.
-        let mut sub_parent = match complex_parent.clone_for_type_spread(
-            context,
-            spread_type_name,
-            spread_position,
-            new_jump_state,
-        ) {
-            Ok(sp) => sp,
-            Err(sub_message) => {
-                if new_jump_state.is_local() {
-                    errors.push(sub_message);
-                }
-                continue;
-            }
+        let spread_name = match selection {
+            parsed_query::Selection::FragmentSpread(spread) => Some(&spread.fragment_name),
+            _ => None,
         };
-        match collect_fields_from_selection_set(
-            context,
-            sub_selection_set,
-            &mut sub_parent,
-            new_jump_state,
-        ) {
-            Ok(_) => {
-                complex_parent.extend_from(sub_parent)?;
-            }
-            Err(sub_messages) => {
-                if new_jump_state.is_local() {
-                    errors.extend(sub_messages);
-                }
+        if let Some(name) = spread_name {
+            context.active_spreads.borrow_mut().push(name.clone());
+        }
+        let sub_result = complex_parent
+            .clone_for_type_spread(context, spread_type_name, spread_position, new_jump_state)
+            .map_err(Vec::from)
+            .and_then(|mut sub_parent| {
+                collect_fields_from_selection_set(
+                    context,
+                    sub_selection_set,
+                    &mut sub_parent,
+                    new_jump_state,
+                )
+                .map(|_| sub_parent)
+            });
+        if spread_name.is_some() {
+            context.active_spreads.borrow_mut().pop();
+        }
+        match (sub_result, spread_name) {
+            (Ok(sub_parent), _) => complex_parent.extend_from(sub_parent)?,
+            // When in the local file, we only say that the foreign fragment isn't usable. We don't
+            // want to spam duplicate messages that will just be repeated when we compile the
+            // foreign fragment anyway.
+            (Err(_), Some(name)) if jump_state.is_local() => {
+                errors.push(Error::InvalidFragment(name.clone(), spread_position));
             }
+            (Err(sub_messages), _) => errors.extend(sub_messages),
         }
     }
 
-- 
2.43.0


From 4d76adaece030a7a8fab5fb5dc53882995bf43ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 05/41] fix: terminate on recursive input objects

---
 src/typescript.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index 8ac2104..bfb7ef9 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -171,8 +171,10 @@ fn add_sub_input_object_field<'a>(
             let global_type = schema
                 .get_type_for_name(type_name)
                 .ok_or_else(|| Error::MissingType(type_name.to_string()))?;
-            name_to_type.insert(type_name, global_type);
-            add_sub_input_objects(name_to_type, schema, global_type)?;
+            // Input objects can be recursive
+            if name_to_type.insert(type_name, global_type).is_none() {
+                add_sub_input_objects(name_to_type, schema, global_type)?;
+            }
         }
         schema_field::FieldTypeDefinition::Enum => {
             let global_type = schema
-- 
2.43.0


From 7acb6965fb7923a7dcca4a4090a5567934c36a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 06/41] fix: keep the inner list of a nullable list of non-null
 lists

---
 src/graphql/schema/field.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 6bd21e4..9613fd1 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -109,6 +109,11 @@ impl ModifierBuilder {
                 self.higher_order_modifiers.push(FieldTypeModifier::List);
                 FieldTypeModifier::ListOfNullable
             }
+            FieldTypeModifier::NullableList => {
+                self.higher_order_modifiers
+                    .push(FieldTypeModifier::NullableList);
+                FieldTypeModifier::ListOfNullable
+            }
             FieldTypeModifier::ListOfNullable => {
                 self.higher_order_modifiers
                     .push(FieldTypeModifier::ListOfNullable);
@@ -119,10 +124,6 @@ impl ModifierBuilder {
                     .push(FieldTypeModifier::NullableListOfNullable);
                 FieldTypeModifier::NullableListOfNullable
             }
-            old_concrete => {
-                self.higher_order_modifiers.push(old_concrete.clone());
-                FieldTypeModifier::new()
-            }
         };
     }
 }
-- 
2.43.0


From c1340c23ccae403a1fcd1e8aa02de1a7d54df92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 07/41] fix: keep every list level of input object fields

---
 src/typescript.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index bfb7ef9..4dfe2af 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -102,22 +102,26 @@ fn input_def_from_type(
     for (name, field) in sorted.into_iter() {
         let doc = compile_documentation(&field.documentation, field.deprecated, 2);
         let field_type = from_input_def_field_def(config, name, field)?;
-        let ts_field = match field.type_description.type_modifiers().last() {
-            schema_field::FieldTypeModifier::None => format!("  {doc}{name}: {field_type};"),
-            schema_field::FieldTypeModifier::Nullable => {
-                format!("  {doc}{name}?: {field_type} | null;")
-            }
-            schema_field::FieldTypeModifier::NullableList => {
-                format!("  {doc}{name}?: {field_type}[] | null;")
-            }
-            schema_field::FieldTypeModifier::List => {
-                format!("  {doc}{name}: {field_type}[];")
-            }
-            schema_field::FieldTypeModifier::ListOfNullable => {
-                format!("  {doc}{name}: ({field_type} | null)[];")
+        let modifiers = field.type_description.type_modifiers();
+        let prop_def_type = prop_type_def(
+            modifiers.rest_modifiers_iter(),
+            modifiers.last(),
+            field_type,
+        );
+        let outermost_modifier = modifiers
+            .rest_modifiers_iter()
+            .last()
+            .unwrap_or_else(|| modifiers.last());
+        let ts_field = match outermost_modifier {
+            schema_field::FieldTypeModifier::None
+            | schema_field::FieldTypeModifier::List
+            | schema_field::FieldTypeModifier::ListOfNullable => {
+                format!("  {doc}{name}: {prop_def_type};")
             }
-            schema_field::FieldTypeModifier::NullableListOfNullable => {
-                format!("  {doc}{name}?: ({field_type} | null)[] | null;")
+            schema_field::FieldTypeModifier::Nullable
+            | schema_field::FieldTypeModifier::NullableList
+            | schema_field::FieldTypeModifier::NullableListOfNullable => {
+                format!("  {doc}{name}?: {prop_def_type};")
             }
         };
         fields.push(ts_field);
-- 
2.43.0


From 261753cfde40f24e467930cb8692fdcd7f4fb8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 08/41] fix: only merge possible types that select the same
 types, not just the same names

---
 src/graphql/schema/field.rs |  6 ++---
 src/typescript.rs           | 49 ++++++++++++++++++++++++++++++++++---
 2 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 9613fd1..aaea31b 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -1,7 +1,7 @@
 use super::{json, Documentation, Error};
 use std::convert::{TryFrom, TryInto};
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub enum ScalarType {
     Custom(String),
     Boolean,
@@ -44,7 +44,7 @@ impl FieldTypeDefinition {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub enum FieldTypeModifier {
     /// No modifier or "flat"
     None,
@@ -128,7 +128,7 @@ impl ModifierBuilder {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq)]
 pub struct FieldTypeModifiers {
     last: FieldTypeModifier,
     rest: Vec<FieldTypeModifier>,
diff --git a/src/typescript.rs b/src/typescript.rs
index 4dfe2af..6fb5fd2 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -321,6 +321,42 @@ fn field_ids_for_complex_ir(complex: &ir::Complex) -> HashSet<&str> {
         .collect()
 }
 
+/// Whether both would compile to the same type, not considering the name that `__typename` has
+fn is_same_complex_type(a: &ir::Complex, b: &ir::Complex) -> bool {
+    a.fields.len() == b.fields.len()
+        && a.fields.iter().zip(&b.fields).all(|(a_field, b_field)| {
+            a_field.prop_name == b_field.prop_name
+                && a_field.type_modifiers == b_field.type_modifiers
+                && match (&a_field.type_ir, &b_field.type_ir) {
+                    (ir::FieldType::TypeName, ir::FieldType::TypeName) => true,
+                    (
+                        ir::FieldType::Complex(a_collection),
+                        ir::FieldType::Complex(b_collection),
+                    ) => is_same_collection_type(a_collection, b_collection),
+                    (ir::FieldType::Enum(a_name), ir::FieldType::Enum(b_name)) => a_name == b_name,
+                    (ir::FieldType::Scalar(a_scalar), ir::FieldType::Scalar(b_scalar)) => {
+                        a_scalar == b_scalar
+                    }
+                    _ => false,
+                }
+        })
+}
+
+fn is_same_collection_type(a: &ir::ComplexCollection, b: &ir::ComplexCollection) -> bool {
+    a.possibilities.len() == b.possibilities.len()
+        && a.possibilities
+            .iter()
+            .zip(&b.possibilities)
+            .all(|(a_complex, b_complex)| {
+                let has_type_name = a_complex
+                    .fields
+                    .iter()
+                    .any(|field| matches!(field.type_ir, ir::FieldType::TypeName));
+                is_same_complex_type(a_complex, b_complex)
+                    && (a_complex.name == b_complex.name || !has_type_name)
+            })
+}
+
 fn type_definitions_from_smoosh_complex_ir<'a>(
     config: &CompileConfig,
     global_types: &mut HashSet<String>,
@@ -357,18 +393,23 @@ fn type_definitions_from_complex_field_collection(
     // of common/completely repeated properties, since this is so common for interface types.
     let mut common_props = field_ids_for_complex_ir(first_possiblity);
     let mut all_fields = Vec::with_capacity(collection.possibilities.len());
-    all_fields.push((&first_possiblity.name[..], common_props.clone()));
+    all_fields.push((first_possiblity, common_props.clone()));
     for possibility in &collection.possibilities[1..] {
         let pos_props = field_ids_for_complex_ir(possibility);
         common_props.retain(|prop_name| pos_props.contains(prop_name));
-        all_fields.push((&possibility.name[..], pos_props));
+        all_fields.push((possibility, pos_props));
     }
 
     // These will represent all the types can can be smooshed down
-    let repeated_possiblities: HashSet<&str> = all_fields
+    let only_common_possibilities = all_fields
         .into_iter()
         .filter(|(_, fields)| common_props == *fields)
-        .map(|(name, _)| name)
+        .map(|(possibility, _)| possibility)
+        .collect::<Vec<_>>();
+    let repeated_possiblities: HashSet<&str> = only_common_possibilities
+        .iter()
+        .filter(|possibility| is_same_complex_type(only_common_possibilities[0], possibility))
+        .map(|possibility| &possibility.name[..])
         .collect();
 
     let num_repeats = repeated_possiblities.len();
-- 
2.43.0


From 183e4fb83574f4c9481102d0eca4ecf0cb4e6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 09/41] fix: emit one property per alias and reject conflicting
 selections

---
 src/graphql/ir.rs | 74 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 22 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 23e5e4a..d683817 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -110,6 +110,12 @@ pub enum Error {
         terminal_type_name: String,
         complex_type_name: String,
     },
+    ConflictingFields {
+        prop_name: String,
+        field_name: String,
+        other_field_name: String,
+        position: Pos,
+    },
 }
 
 impl From<(&str, &Path, Error)> for PrintableMessage {
@@ -201,6 +207,15 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     &format!("unexpectedly attempting merge of complex type `{complex_type_name}` and terminal type `{terminal_type_name}`."),
                 )
             }
+            Error::ConflictingFields { prop_name, field_name, other_field_name, position } => {
+                PrintableMessage::new_compile_error(
+                    &format!("conflicting selections for `{prop_name}`"),
+                    file_path,
+                    contents,
+                    &position,
+                    Some(&format!("Both the fields `{field_name}` and `{other_field_name}` are selected as `{prop_name}`. Use different aliases for them.")),
+                )
+            }
         }
     }
 }
@@ -233,12 +248,10 @@ impl From<Error> for Vec<Error> {
     }
 }
 
-/// Alias and field name
-type FieldId<'a> = (&'a str, &'a str);
-
 #[derive(Debug, Clone)]
 struct UniqueFields<'a> {
-    collection: HashMap<FieldId<'a>, (&'a schema_field::Field, FieldTraversal<'a>)>,
+    /// Aliases mapped to what they select
+    collection: HashMap<&'a str, (&'a schema_field::Field, FieldTraversal<'a>)>,
 }
 
 impl<'a> UniqueFields<'a> {
@@ -251,13 +264,21 @@ impl<'a> UniqueFields<'a> {
     fn insert(
         &mut self,
         alias: &'a str,
-        name: &'a str,
         field: &'a schema_field::Field,
         traversal: FieldTraversal<'a>,
+        position: Pos,
     ) -> Result<()> {
-        match self.collection.entry((alias, name)) {
+        match self.collection.entry(alias) {
+            Entry::Occupied(occupant) if occupant.get().0.name != field.name => {
+                return Err(Error::ConflictingFields {
+                    prop_name: alias.to_string(),
+                    field_name: occupant.get().0.name.clone(),
+                    other_field_name: field.name.clone(),
+                    position,
+                });
+            }
             Entry::Occupied(occupant) => {
-                occupant.into_mut().1.extend_from(traversal)?;
+                occupant.into_mut().1.extend_from(traversal, position)?;
             }
             Entry::Vacant(vacany) => {
                 vacany.insert((field, traversal));
@@ -266,9 +287,9 @@ impl<'a> UniqueFields<'a> {
         Ok(())
     }
 
-    fn extend_from(&mut self, other: UniqueFields<'a>) -> Result<()> {
-        for ((alias, name), (field, traversal)) in other.collection.into_iter() {
-            self.insert(alias, name, field, traversal)?;
+    fn extend_from(&mut self, other: UniqueFields<'a>, position: Pos) -> Result<()> {
+        for (alias, (field, traversal)) in other.collection.into_iter() {
+            self.insert(alias, field, traversal, position)?;
         }
         Ok(())
     }
@@ -279,7 +300,7 @@ impl<'a> TryFrom<UniqueFields<'a>> for Vec<Field> {
     fn try_from(from: UniqueFields<'a>) -> Result<Self> {
         from.collection
             .into_iter()
-            .map(|((alias, _name), (field, sub_traversal))| {
+            .map(|(alias, (field, sub_traversal))| {
                 let concrete = field.type_description.reveal_concrete();
                 Ok(Field {
                     prop_name: alias.to_string(),
@@ -346,16 +367,16 @@ impl<'a, 'b> ComplexTraversal<'a> {
     fn insert_terminal(
         &mut self,
         alias: &'a str,
-        name: &'a str,
         field: &'a schema_field::Field,
         terminal: TerminalTraversal<'a>,
+        position: Pos,
     ) -> Result<()> {
         for uniques in self.concrete_objects.values_mut() {
             uniques.insert(
                 alias,
-                name,
                 field,
                 FieldTraversal::Terminal(terminal.clone()),
+                position,
             )?;
         }
         Ok(())
@@ -364,20 +385,25 @@ impl<'a, 'b> ComplexTraversal<'a> {
     fn insert_complex(
         &mut self,
         alias: &'a str,
-        name: &'a str,
         field: &'a schema_field::Field,
         complex: ComplexTraversal<'a>,
+        position: Pos,
     ) -> Result<()> {
         for uniques in self.concrete_objects.values_mut() {
-            uniques.insert(alias, name, field, FieldTraversal::Complex(complex.clone()))?;
+            uniques.insert(
+                alias,
+                field,
+                FieldTraversal::Complex(complex.clone()),
+                position,
+            )?;
         }
         Ok(())
     }
 
-    fn extend_from(&mut self, other: Self) -> Result<()> {
+    fn extend_from(&mut self, other: Self, position: Pos) -> Result<()> {
         for (type_name, other_uniques) in other.concrete_objects.into_iter() {
             if let Some(uniques) = self.concrete_objects.get_mut(type_name) {
-                uniques.extend_from(other_uniques.clone())?;
+                uniques.extend_from(other_uniques.clone(), position)?;
             }
         }
         Ok(())
@@ -447,10 +473,10 @@ enum FieldTraversal<'a> {
 }
 
 impl<'a> FieldTraversal<'a> {
-    fn extend_from(&mut self, other: Self) -> Result<()> {
+    fn extend_from(&mut self, other: Self, position: Pos) -> Result<()> {
         match self {
             Self::Complex(self_complex) => match other {
-                Self::Complex(other_complex) => self_complex.extend_from(other_complex),
+                Self::Complex(other_complex) => self_complex.extend_from(other_complex, position),
                 Self::Terminal(other_terminal) => Err(Error::MixedTerminalAndComplexFields {
                     complex_type_name: self_complex.type_name.to_string(),
                     terminal_type_name: other_terminal.type_name.to_string(),
@@ -692,7 +718,7 @@ fn insert_field<'a, 'b>(
         }
         (true, false) => {
             let terminal = TerminalTraversal::from(field_type_name);
-            traversal.insert_terminal(alias, field_type_name, field, terminal)?;
+            traversal.insert_terminal(alias, field, terminal, selection_field.position)?;
         }
         (false, true) => {
             let mut sub_parent =
@@ -703,7 +729,7 @@ fn insert_field<'a, 'b>(
                 &mut sub_parent,
                 jump_state,
             )?;
-            traversal.insert_complex(alias, field_type_name, field, sub_parent)?;
+            traversal.insert_complex(alias, field, sub_parent, selection_field.position)?;
         }
     };
 
@@ -807,7 +833,11 @@ fn collect_fields_from_selection_set<'a, 'b>(
             context.active_spreads.borrow_mut().pop();
         }
         match (sub_result, spread_name) {
-            (Ok(sub_parent), _) => complex_parent.extend_from(sub_parent)?,
+            (Ok(sub_parent), _) => {
+                if let Err(message) = complex_parent.extend_from(sub_parent, spread_position) {
+                    errors.push(message);
+                }
+            }
             // When in the local file, we only say that the foreign fragment isn't usable. We don't
             // want to spam duplicate messages that will just be repeated when we compile the
             // foreign fragment anyway.
-- 
2.43.0


From 7c4235c500c44d2ea9a396a001f3667c884bd4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 10/41] fix: never end a documentation comment early

---
 src/typescript.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index 6fb5fd2..96e4b17 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -250,9 +250,12 @@ fn compile_documentation(
     let tab = " ".repeat(tab_width);
 
     let processed_documentation = documentation.as_deref().map(|docs| {
-        docs.replace('\n', &format!("\n {tab}* "))
-            .replace("/*", EMPTY)
-            .replace("*/", EMPTY)
+        let mut docs = docs.replace('\n', &format!("\n {tab}* "));
+        // Removing one can put together another one, ie `**//`
+        while docs.contains("/*") || docs.contains("*/") {
+            docs = docs.replace("/*", EMPTY).replace("*/", EMPTY);
+        }
+        docs
     });
 
     let wrap = |content: &str| format!("/**\n {tab}* {content}\n {tab}*/\n{tab}");
-- 
2.43.0


From e7550f0f3e0c37fabd3787aa941c2d76ef692a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 11/41] fix: reject zero threads instead of silently compiling
 nothing

---
 src/cli.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index bb46df6..82d42a4 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -6,6 +6,7 @@ use serde::Deserialize;
 use std::fmt;
 use std::fs::File;
 use std::io::{BufReader, Error as IOError};
+use std::num::NonZeroUsize;
 use std::path::{Path, PathBuf};
 use strsim::generic_damerau_levenshtein;
 
@@ -324,7 +325,7 @@ struct CliArgs {
     show_deprecation_warnings: bool,
     /// Sets the number of threads (defaults to number of CPU cores)
     #[arg(long, value_name = "NUMBER")]
-    num_threads: Option<usize>,
+    num_threads: Option<NonZeroUsize>,
     /// Disables color output
     #[arg(long)]
     no_color: bool,
@@ -342,7 +343,7 @@ struct ConfigFileMatches {
     #[serde(rename(deserialize = "customScalarPrefix"))]
     custom_scalar_prefix: Option<String>,
     #[serde(rename(deserialize = "numThreads"))]
-    num_threads: Option<usize>,
+    num_threads: Option<NonZeroUsize>,
     #[serde(rename(deserialize = "showDeprecationWarnings"))]
     show_deprecation_warnings: Option<bool>,
     #[serde(rename(deserialize = "rootDirImportPrefix"))]
@@ -442,6 +443,7 @@ impl RuntimeConfig {
             number_threads: cli_args
                 .num_threads
                 .or(config_file_args.num_threads)
+                .map(NonZeroUsize::get)
                 .unwrap_or_else(|| std::cmp::min(num_cpus::get(), 8)),
             root_dir_import_prefix: cli_args
                 .root_dir_import_prefix
-- 
2.43.0


From dbd33ec232545db823ce7d86af1d2ba0e365f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 12/41] fix: pluralize the warning summary by the number of
 warnings

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 82d42a4..0fda721 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -546,7 +546,7 @@ pub fn print_exit_info(exit_info: impl ExitInformation) -> ! {
         );
     }
     if warning_count > 0 {
-        let plural = if error_count > 1 { "s" } else { "" };
+        let plural = if warning_count > 1 { "s" } else { "" };
         println!(
             "{}",
             PrintableMessage::new_simple_compile_warning(&format!(
-- 
2.43.0


From 7530371e04a50630f20fba6160048e658021832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 13/41] fix: use the configured custom scalar prefix with
 --use-custom-scalars

---
 src/cli.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 0fda721..b2a5552 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -435,11 +435,9 @@ impl RuntimeConfig {
                 || config_file_args.use_custom_scalars.unwrap_or(false),
             disable_readonly_types: cli_args.disable_readonly_types
                 || config_file_args.disable_readonly_types.unwrap_or(false),
-            custom_scalar_prefix: cli_args.custom_scalar_prefix.or_else(|| {
-                config_file_args
-                    .use_custom_scalars
-                    .and(config_file_args.custom_scalar_prefix)
-            }),
+            custom_scalar_prefix: cli_args
+                .custom_scalar_prefix
+                .or(config_file_args.custom_scalar_prefix),
             number_threads: cli_args
                 .num_threads
                 .or(config_file_args.num_threads)
-- 
2.43.0


From 0e89ac3a5d63f4927253884e29f75d504a71961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 14/41] fix: name the globals file when it could not be written

---
 src/graphql.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index e88e267..53e204f 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -298,8 +298,8 @@ pub fn compile_global_types_file(
     } else {
         output_path.with_extension("ts")
     };
-    std::fs::write(output_path_with_ext, the_compile.contents).map_err(|io_error| {
-        PrintableMessage::new_compile_error_from_write_io_error(&io_error, root_path)
+    std::fs::write(&output_path_with_ext, the_compile.contents).map_err(|io_error| {
+        PrintableMessage::new_compile_error_from_write_io_error(&io_error, &output_path_with_ext)
     })?;
     Ok(())
 }
-- 
2.43.0


From 6d632d3554101cda089b71ac57304560e31ed7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 15/41] fix: report imports of non-fragments at the line that
 imports them

---
 src/graphql.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 53e204f..d095803 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -123,11 +123,18 @@ fn get_file_path_of_fragment(
         })
 }
 
+/// A file that was imported, and by which line of which other file
+struct Import {
+    contents: String,
+    importer: PathBuf,
+    location: LocationInformation,
+}
+
 fn add_imported_fragments(
     config: &CompileConfig,
     root_file: &Path,
     root_file_contents: &str,
-    import_contents: &mut HashMap<PathBuf, (String, LocationInformation)>,
+    import_contents: &mut HashMap<PathBuf, Import>,
     messages: &mut Vec<PrintableMessage>,
 ) {
     // Imports can be repeated or even cyclic, so every file is only visited once
@@ -169,19 +176,23 @@ fn add_imported_fragments(
                 continue;
             }
             pending.push((file_path.clone(), other_file_contents.clone()));
-            import_contents.insert(file_path, (other_file_contents, location));
+            let import = Import {
+                contents: other_file_contents,
+                importer: current_file.clone(),
+                location,
+            };
+            import_contents.insert(file_path, import);
         }
     }
 }
 
 fn parse_foreign_fragments<'a>(
-    path: &Path,
-    imported_contents: &'a HashMap<PathBuf, (String, LocationInformation)>,
+    imported_contents: &'a HashMap<PathBuf, Import>,
     messages: &mut Vec<PrintableMessage>,
 ) -> HashMap<String, FragmentDefinition<'a, ParsedTextType>> {
     let mut parsed_imported_fragments = HashMap::new();
-    for (other_path, (contents, location)) in imported_contents.iter() {
-        if let Ok(mut parsed) = parse_graphql_file(contents, other_path) {
+    for (other_path, import) in imported_contents.iter() {
+        if let Ok(mut parsed) = parse_graphql_file(&import.contents, other_path) {
             // We already know there is exactly one definition since read_graphql_file
             // throws away documents that contain more or less than one defintion.
             for def in parsed.definitions.drain(0..1) {
@@ -193,11 +204,11 @@ fn parse_foreign_fragments<'a>(
                     _ => {
                         let mut message = PrintableMessage::new_simple_compile_error(&format!(
                             "cannot import non-fragment GraphQL document `{}`",
-                            path.display()
+                            other_path.display()
                         ));
-                        let mut location = location.clone();
+                        let mut location = import.location.clone();
                         location.with_help_text("This document is not a fragment, and importing it is probably a mistake.");
-                        message.with_source_information(path, Some(location));
+                        message.with_source_information(&import.importer, Some(location));
                         messages.push(message);
                     }
                 }
@@ -224,8 +235,7 @@ pub fn compile_file(
         &mut imported_contents,
         &mut messages,
     );
-    let parsed_imported_fragments =
-        parse_foreign_fragments(path, &imported_contents, &mut messages);
+    let parsed_imported_fragments = parse_foreign_fragments(&imported_contents, &mut messages);
 
     let (op_ir, warnings) = match ir::Operation::compile(
         &parsed.definitions[0],
-- 
2.43.0


From 459c0f075f74a9b404d54189af0686f607613c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 16/41] fix: reject importing fragments with the same name
 instead of picking one at random

---
 src/graphql.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index d095803..f97c41d 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -2,7 +2,8 @@ use super::cli::{LocationInformation, PrintableMessage, RuntimeConfig};
 use crate::typescript;
 use graphql_parser::query::{Definition, Document, FragmentDefinition, OperationDefinition};
 use schema::Schema;
-use std::collections::{HashMap, HashSet};
+use std::collections::hash_map::Entry;
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::fs::File;
 use std::io::{BufReader, Read};
 use std::path::{Path, PathBuf};
@@ -134,7 +135,7 @@ fn add_imported_fragments(
     config: &CompileConfig,
     root_file: &Path,
     root_file_contents: &str,
-    import_contents: &mut HashMap<PathBuf, Import>,
+    import_contents: &mut BTreeMap<PathBuf, Import>,
     messages: &mut Vec<PrintableMessage>,
 ) {
     // Imports can be repeated or even cyclic, so every file is only visited once
@@ -187,7 +188,7 @@ fn add_imported_fragments(
 }
 
 fn parse_foreign_fragments<'a>(
-    imported_contents: &'a HashMap<PathBuf, Import>,
+    imported_contents: &'a BTreeMap<PathBuf, Import>,
     messages: &mut Vec<PrintableMessage>,
 ) -> HashMap<String, FragmentDefinition<'a, ParsedTextType>> {
     let mut parsed_imported_fragments = HashMap::new();
@@ -199,7 +200,23 @@ fn parse_foreign_fragments<'a>(
                 match def {
                     Definition::Fragment(f_def) => {
                         let fragment_name = f_def.name.clone();
-                        parsed_imported_fragments.insert(fragment_name, f_def);
+                        match parsed_imported_fragments.entry(fragment_name) {
+                            Entry::Vacant(vacancy) => {
+                                vacancy.insert(f_def);
+                            }
+                            Entry::Occupied(occupant) => {
+                                let mut message =
+                                    PrintableMessage::new_simple_compile_error(&format!(
+                                        "imported more than one fragment named `{}`",
+                                        occupant.key()
+                                    ));
+                                message.with_source_information(
+                                    &import.importer,
+                                    Some(import.location.clone()),
+                                );
+                                messages.push(message);
+                            }
+                        }
                     }
                     _ => {
                         let mut message = PrintableMessage::new_simple_compile_error(&format!(
@@ -227,7 +244,7 @@ pub fn compile_file(
     let parsed = parse_graphql_file(&contents, path).map_err(|e| vec![e])?;
 
     let mut messages = Vec::new();
-    let mut imported_contents = HashMap::new();
+    let mut imported_contents = BTreeMap::new();
     add_imported_fragments(
         config,
         path,
-- 
2.43.0


From 5c329e3179ec0262703354bbe231c08072cd2ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 17/41] fix: emit messages that do not depend on hash map order

---
 src/cli.rs        |  3 ++-
 src/graphql/ir.rs | 12 ++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index b2a5552..bde533d 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -503,7 +503,7 @@ pub fn similar_help_suggestions(
     possible_names: impl Iterator<Item = String>,
 ) -> Option<String> {
     let comparison_name = comparison_name.as_ref();
-    let similar_names: Vec<_> = possible_names
+    let mut similar_names: Vec<_> = possible_names
         .filter(|possible_field_name| {
             generic_damerau_levenshtein(comparison_name, possible_field_name.as_ref()) < 3
         })
@@ -511,6 +511,7 @@ pub fn similar_help_suggestions(
     if similar_names.is_empty() {
         None
     } else {
+        similar_names.sort_unstable();
         Some(format!(
             " Did you mean one of the following: `{}`?",
             similar_names.join("`, `")
diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index d683817..a6c9ad2 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -5,8 +5,8 @@ use crate::graphql::schema::field as schema_field;
 use crate::graphql::variable;
 use graphql_parser::query as parsed_query;
 use graphql_parser::Pos;
-use std::collections::hash_map::Entry;
-use std::collections::HashMap;
+use std::collections::btree_map::Entry;
+use std::collections::{BTreeMap, HashMap};
 use std::convert::{TryFrom, TryInto};
 use std::path::Path;
 
@@ -251,13 +251,13 @@ impl From<Error> for Vec<Error> {
 #[derive(Debug, Clone)]
 struct UniqueFields<'a> {
     /// Aliases mapped to what they select
-    collection: HashMap<&'a str, (&'a schema_field::Field, FieldTraversal<'a>)>,
+    collection: BTreeMap<&'a str, (&'a schema_field::Field, FieldTraversal<'a>)>,
 }
 
 impl<'a> UniqueFields<'a> {
     fn new() -> Self {
         UniqueFields {
-            collection: HashMap::new(),
+            collection: BTreeMap::new(),
         }
     }
 
@@ -335,7 +335,7 @@ struct ComplexTraversal<'a> {
     type_name: &'a str,
     fields_lookup: &'a schema::FieldsLookup,
     /// Concrete object type names mapped to its fields
-    concrete_objects: HashMap<&'a str, UniqueFields<'a>>,
+    concrete_objects: BTreeMap<&'a str, UniqueFields<'a>>,
 }
 
 impl<'a, 'b> ComplexTraversal<'a> {
@@ -445,7 +445,7 @@ impl<'a, 'b> TryFrom<(&'a CompileContext<'a, 'b>, &'a str, Pos)> for ComplexTrav
             .ok_or_else(|| Error::SelectionSetOnWrongType(type_name.to_string(), position))?;
         let concrete_objects = match &schema_type.definition {
             schema::TypeDefinition::Object(_) => {
-                let mut concrete_objects = HashMap::with_capacity(1);
+                let mut concrete_objects = BTreeMap::new();
                 concrete_objects.insert(type_name, UniqueFields::new());
                 concrete_objects
             }
-- 
2.43.0


From 2884e8e34144904b2c6c2001632c0d8c12750686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 18/41] fix: compile operations against the root types that the
 schema declares

---
 src/graphql/ir.rs          | 87 +++++++++++++++++++-------------------
 src/graphql/schema.rs      | 29 ++++++++++++-
 src/graphql/schema/json.rs |  6 +++
 3 files changed, 77 insertions(+), 45 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index a6c9ad2..6ce3a9d 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -521,17 +521,6 @@ pub struct ComplexCollection {
     pub possibilities: Vec<Complex>,
 }
 
-impl From<&str> for OperationKind {
-    fn from(name: &str) -> Self {
-        match name {
-            "Mutation" => OperationKind::Mutation,
-            "Subscription" => OperationKind::Subscription,
-            "Query" => OperationKind::Query,
-            _ => OperationKind::Fragment,
-        }
-    }
-}
-
 #[derive(Debug)]
 pub enum OperationKind {
     Query,
@@ -610,38 +599,48 @@ fn build_from_operation<'a>(
     operation: &'a parsed_query::OperationDefinition<'a, ParsedTextType>,
     jump_state: ForeignFragmentJumpState,
 ) -> ResultMany<Operation<'a>> {
-    let (op_type_name, fallback_name, op_name, selection_set, var_defs, position) = match operation
-    {
-        parsed_query::OperationDefinition::Query(query) => (
-            "Query",
-            "Query",
-            &query.name,
-            &query.selection_set,
-            &query.variable_definitions,
-            query.position,
-        ),
-        parsed_query::OperationDefinition::Mutation(mutation) => (
-            "Mutation",
-            "Mutation",
-            &mutation.name,
-            &mutation.selection_set,
-            &mutation.variable_definitions,
-            mutation.position,
-        ),
-        parsed_query::OperationDefinition::Subscription(subscription) => (
-            "Query", // We look in query as our type for subscriptions
-            "Subscription",
-            &subscription.name,
-            &subscription.selection_set,
-            &subscription.variable_definitions,
-            subscription.position,
-        ),
-        parsed_query::OperationDefinition::SelectionSet(selection) => {
-            return Err(vec![Error::SelectionSetAsOperationUnsupported(
-                selection.span.0,
-            )]);
-        }
-    };
+    let (op_type_name, kind, fallback_name, op_name, selection_set, var_defs, position) =
+        match operation {
+            parsed_query::OperationDefinition::Query(query) => (
+                context.schema.query_type_name(),
+                OperationKind::Query,
+                "Query",
+                &query.name,
+                &query.selection_set,
+                &query.variable_definitions,
+                query.position,
+            ),
+            parsed_query::OperationDefinition::Mutation(mutation) => (
+                context.schema.mutation_type_name(),
+                OperationKind::Mutation,
+                "Mutation",
+                &mutation.name,
+                &mutation.selection_set,
+                &mutation.variable_definitions,
+                mutation.position,
+            ),
+            parsed_query::OperationDefinition::Subscription(subscription) => {
+                let (op_type_name, kind) = match context.schema.subscription_type_name() {
+                    Some(name) => (name, OperationKind::Subscription),
+                    // We look in query as our type for subscriptions when there is no type for them
+                    None => (context.schema.query_type_name(), OperationKind::Query),
+                };
+                (
+                    op_type_name,
+                    kind,
+                    "Subscription",
+                    &subscription.name,
+                    &subscription.selection_set,
+                    &subscription.variable_definitions,
+                    subscription.position,
+                )
+            }
+            parsed_query::OperationDefinition::SelectionSet(selection) => {
+                return Err(vec![Error::SelectionSetAsOperationUnsupported(
+                    selection.span.0,
+                )]);
+            }
+        };
     let mut parent = ComplexTraversal::try_from((context, op_type_name, position))?;
     collect_fields_from_selection_set(context, selection_set, &mut parent, jump_state)?;
     Ok(Operation {
@@ -651,7 +650,7 @@ fn build_from_operation<'a>(
             .unwrap_or_else(|| fallback_name.to_string()),
         collection: parent.try_into()?,
         variables: variable::try_build_variable_ir(context, var_defs).map_err(Error::Variable)?,
-        kind: OperationKind::from(op_type_name),
+        kind,
     })
 }
 
diff --git a/src/graphql/schema.rs b/src/graphql/schema.rs
index cfb2b02..835a083 100644
--- a/src/graphql/schema.rs
+++ b/src/graphql/schema.rs
@@ -180,6 +180,9 @@ impl TryFrom<json::Type> for Type {
 
 pub struct Schema {
     types: HashMap<String, Type>,
+    query_type_name: String,
+    mutation_type_name: String,
+    subscription_type_name: Option<String>,
 }
 
 impl Schema {
@@ -189,7 +192,31 @@ impl Schema {
         for type_json in schema_json.types {
             types.insert(type_json.name.clone(), Type::try_from(type_json)?);
         }
-        Ok(Schema { types })
+        Ok(Schema {
+            query_type_name: schema_json
+                .query_type
+                .map_or_else(|| "Query".to_string(), |query_type| query_type.name),
+            mutation_type_name: schema_json.mutation_type.map_or_else(
+                || "Mutation".to_string(),
+                |mutation_type| mutation_type.name,
+            ),
+            subscription_type_name: schema_json
+                .subscription_type
+                .map(|subscription_type| subscription_type.name),
+            types,
+        })
+    }
+
+    pub fn query_type_name(&self) -> &str {
+        &self.query_type_name
+    }
+
+    pub fn mutation_type_name(&self) -> &str {
+        &self.mutation_type_name
+    }
+
+    pub fn subscription_type_name(&self) -> Option<&str> {
+        self.subscription_type_name.as_deref()
     }
 
     pub fn get_type_for_name(&self, name: &str) -> Option<&Type> {
diff --git a/src/graphql/schema/json.rs b/src/graphql/schema/json.rs
index 239f959..75017a1 100644
--- a/src/graphql/schema/json.rs
+++ b/src/graphql/schema/json.rs
@@ -41,6 +41,12 @@ pub struct Type {
 
 #[derive(Deserialize, Debug)]
 pub struct Schema {
+    #[serde(rename(deserialize = "queryType"))]
+    pub query_type: Option<ComplexObjectDescription>,
+    #[serde(rename(deserialize = "mutationType"))]
+    pub mutation_type: Option<ComplexObjectDescription>,
+    #[serde(rename(deserialize = "subscriptionType"))]
+    pub subscription_type: Option<ComplexObjectDescription>,
     pub types: Vec<Type>,
 }
 
-- 
2.43.0


From 97d3cfeea9d71dadd1443cd61e9cd09b1ed706dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 19/41] fix: fail the install when the binary download is cut
 short

---
 pkg/npm/lib/postinstall.js | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index 7ee3192..4569f27 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -7,6 +7,7 @@ const url = require("url");
 const { get: httpsGet } = require("https");
 const { join } = require("path");
 const { createHash } = require("crypto");
+const { pipeline } = require("stream");
 const { spawn } = require("child_process");
 
 const {
@@ -47,7 +48,9 @@ function download(fullUrl, dest) {
     httpsGet(opts, (response) => {
       switch (response.statusCode) {
         case 200:
-          return response.pipe(createWriteStream(dest).on("finish", resolve));
+          return pipeline(response, createWriteStream(dest), (err) =>
+            err ? cleanup(err) : resolve(),
+          );
         case 302:
           return download(response.headers.location, dest)
             .then(resolve)
-- 
2.43.0


From 7ebc078c0ffd13cd01993767afdcb7870fa47549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 20/41] fix: fail the schema download when the response is cut
 short

---
 pkg/npm/lib/download.js | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index c812f4d..38381a5 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -1,6 +1,7 @@
 "use strict";
 
 const { unlink, createWriteStream } = require("fs");
+const { pipeline } = require("stream");
 const { URL } = require("url");
 
 const introspectionQuery = `
@@ -92,7 +93,9 @@ function download() {
     const outFile = createWriteStream(outFilePath);
     const cleanup = (err) => {
       return unlink(outFilePath, (deleteErr) => {
-        console.error(deleteErr);
+        if (deleteErr) {
+          console.error(deleteErr);
+        }
         reject(err);
       });
     };
@@ -107,8 +110,7 @@ function download() {
         if (response.statusCode !== 200) {
           return cleanup(new Error(`Download failed with ${response.statusCode}`));
         }
-        response.pipe(outFile);
-        outFile.on("finish", resolve);
+        pipeline(response, outFile, (err) => (err ? cleanup(err) : resolve()));
       })
       .on("error", cleanup)
       .end(JSON.stringify({ query: introspectionQuery }));
-- 
2.43.0


From ddb7f1e3355dc537c226c8bdf8e4ddd1cb1742eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 21/41] fix: download which fields are deprecated

---
 pkg/npm/lib/download.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index 38381a5..c248f0f 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -22,6 +22,7 @@ const introspectionQuery = `
     fields(includeDeprecated: true) {
       name
       description
+      isDeprecated
       args {
         ...InputValue
       }
-- 
2.43.0


From ff0a0f1d9fa11fa4b8e0ac55e582d6e67eeaa4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 22/41] fix: fail the install when the binary download times
 out

---
 pkg/npm/lib/postinstall.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index 4569f27..5cb6af3 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -61,6 +61,9 @@ function download(fullUrl, dest) {
           );
       }
     })
+      .on("timeout", function () {
+        this.destroy(new Error("Download timed out"));
+      })
       .on("error", cleanup)
       .end();
   });
-- 
2.43.0


From 76de1a31787c25b5c37037732fd708b020907636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 23/41] fix: extract types of mutations and subscriptions from
 typed documents

---
 pkg/npm/lib/typed-documentnode.d.ts | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/pkg/npm/lib/typed-documentnode.d.ts b/pkg/npm/lib/typed-documentnode.d.ts
index d58a7fa..c39f861 100644
--- a/pkg/npm/lib/typed-documentnode.d.ts
+++ b/pkg/npm/lib/typed-documentnode.d.ts
@@ -35,6 +35,11 @@ export type FragmentDocumentNode<Data extends BasicObject> = DocumentNode & {
   readonly __typedDocumentNodeFragment?: () => Data;
 };
 
+/** The brands are optional, so every document would extend every kind of document without this */
+type IfBranded<T, Brand extends string> = Brand extends keyof T
+  ? unknown
+  : never;
+
 /**
  * Helper for extracting a data type from a typed DocumentNode
  * @example
@@ -42,11 +47,14 @@ export type FragmentDocumentNode<Data extends BasicObject> = DocumentNode & {
  * // MyQuery is QueryDocumentNode<D, V>
  * type MyQuerysData = DataOf<typeof MyQuery>; // MyQuerysData is now type D
  */
-export type DataOf<T> = T extends QueryDocumentNode<infer Data, infer Variables>
+export type DataOf<T> = T extends IfBranded<T, "__typedDocumentNodeQuery"> &
+      QueryDocumentNode<infer Data, infer Variables>
   ? Data
-  : T extends MutationDocumentNode<infer Data, infer Variables>
+  : T extends IfBranded<T, "__typedDocumentNodeMutation"> &
+      MutationDocumentNode<infer Data, infer Variables>
   ? Data
-  : T extends SubscriptionDocumentNode<infer Data, infer Variables>
+  : T extends IfBranded<T, "__typedDocumentNodeSubscription"> &
+      SubscriptionDocumentNode<infer Data, infer Variables>
   ? Data
   : T extends FragmentDocumentNode<infer Data>
   ? Data
@@ -59,13 +67,13 @@ export type DataOf<T> = T extends QueryDocumentNode<infer Data, infer Variables>
  * // MyMutation is MutationDocumentNode<D, V>
  * type MyMutationsVars = VariablesOf<typeof MyMutation>; // MyMutationsVars is now type V
  */
-export type VariablesOf<T> = T extends QueryDocumentNode<
-  infer Data,
-  infer Variables
->
+export type VariablesOf<T> = T extends IfBranded<T, "__typedDocumentNodeQuery"> &
+  QueryDocumentNode<infer Data, infer Variables>
   ? Variables
-  : T extends MutationDocumentNode<infer Data, infer Variables>
+  : T extends IfBranded<T, "__typedDocumentNodeMutation"> &
+      MutationDocumentNode<infer Data, infer Variables>
   ? Variables
-  : T extends SubscriptionDocumentNode<infer Data, infer Variables>
+  : T extends IfBranded<T, "__typedDocumentNodeSubscription"> &
+      SubscriptionDocumentNode<infer Data, infer Variables>
   ? Variables
   : never;
-- 
2.43.0


From 365f8d145c1308babf636597a0f92390263968fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 24/41] verif: event log and yield points behind cfg(qlc_verif)

---
 src/graphql.rs     |  2 ++
 src/main.rs        |  4 +++
 src/verif.rs       | 70 ++++++++++++++++++++++++++++++++++++++++++++++
 src/worker_pool.rs | 27 ++++++++++++++++++
 4 files changed, 103 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/graphql.rs b/src/graphql.rs
index f97c41d..26adcc3 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -289,6 +289,8 @@ pub fn compile_file(
     };
 
     let output_path = path.with_extension("graphql.d.ts");
+    #[cfg(qlc_verif)]
+    crate::verif::yield_point();
     std::fs::write(&output_path, the_compile.contents).map_err(|io_error| {
         vec![PrintableMessage::new_compile_error_from_write_io_error(
             &io_error,
diff --git a/src/main.rs b/src/main.rs
index d134bb2..4fd06f4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,8 +1,12 @@
 #![deny(rust_2018_idioms)]
+// `qlc_verif` is only set to build with the hooks in `verif`
+#![allow(unexpected_cfgs)]
 
 mod cli;
 mod graphql;
 mod typescript;
+#[cfg(qlc_verif)]
+mod verif;
 mod worker_pool;
 
 fn main() {
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..c391f7b
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,70 @@
+//! Event log and schedule perturbation for runtime verification, compiled in with
+//! `--cfg qlc_verif` only. Both are inert unless their environment variable is set.
+
+use std::cell::Cell;
+use std::fs::{File, OpenOptions};
+use std::io::Write;
+use std::path::Path;
+use std::sync::atomic::{AtomicU64, Ordering};
+use std::sync::OnceLock;
+use std::thread;
+use std::time::Duration;
+
+static NEXT_THREAD: AtomicU64 = AtomicU64::new(1);
+
+thread_local! {
+    static THREAD: u64 = NEXT_THREAD.fetch_add(1, Ordering::Relaxed);
+    static RANDOM: Cell<u64> = const { Cell::new(0) };
+}
+
+/// `<seed>:<percent>:<max microseconds>` in `QLC_VERIF_DELAY`
+fn delay_config() -> Option<(u64, u64, u64)> {
+    static CONFIG: OnceLock<Option<(u64, u64, u64)>> = OnceLock::new();
+    *CONFIG.get_or_init(|| {
+        let raw = std::env::var("QLC_VERIF_DELAY").ok()?;
+        let mut parts = raw.split(':').map(|part| part.parse::<u64>().ok());
+        Some((parts.next()??, parts.next()??, parts.next()??))
+    })
+}
+
+fn log_file() -> Option<&'static File> {
+    static LOG: OnceLock<Option<File>> = OnceLock::new();
+    LOG.get_or_init(|| {
+        let path = std::env::var_os("QLC_VERIF_LOG")?;
+        OpenOptions::new().append(true).create(true).open(path).ok()
+    })
+    .as_ref()
+}
+
+/// A place between steps where another thread may be scheduled for a while.
+pub fn yield_point() {
+    let Some((seed, percent, max_micros)) = delay_config() else {
+        return;
+    };
+    let thread = THREAD.with(|thread| *thread);
+    let random = RANDOM.with(|random| {
+        let mut x = random.get();
+        if x == 0 {
+            x = (seed + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (thread << 32 | thread) | 1;
+        }
+        x ^= x << 13;
+        x ^= x >> 7;
+        x ^= x << 17;
+        random.set(x);
+        x >> 16
+    });
+    if random % 100 < percent {
+        thread::sleep(Duration::from_micros((random >> 8) % (max_micros + 1)));
+    } else if random % 100 < 2 * percent {
+        thread::yield_now();
+    }
+}
+
+/// Appends what just happened to the log, in one write, so that events of all threads are ordered.
+pub fn event(kind: &str, path: Option<&Path>) {
+    if let Some(mut log) = log_file() {
+        let thread = THREAD.with(|thread| *thread);
+        let line = format!("{thread}\t{kind}\t{:?}\n", path.unwrap_or(Path::new("")));
+        let _ = log.write_all(line.as_bytes());
+    }
+}
diff --git a/src/worker_pool.rs b/src/worker_pool.rs
index 0778548..225604d 100644
--- a/src/worker_pool.rs
+++ b/src/worker_pool.rs
@@ -77,6 +77,13 @@ enum Work {
 }
 
 impl Work {
+    #[cfg(qlc_verif)]
+    fn path(&self) -> &Path {
+        match self {
+            Work::GraphQl(path) | Work::DirEntry(path) => path,
+        }
+    }
+
     fn run_dir_entry(&self, path: &Path) -> Result<Vec<Work>, std::io::Error> {
         let mut more_work = Vec::new();
         for io_entry in fs::read_dir(path)? {
@@ -119,6 +126,8 @@ struct FinishOnDrop<'a>(&'a AtomicUsize);
 
 impl Drop for FinishOnDrop<'_> {
     fn drop(&mut self) {
+        #[cfg(qlc_verif)]
+        crate::verif::yield_point();
         self.0.fetch_sub(1, Ordering::SeqCst);
     }
 }
@@ -136,6 +145,10 @@ impl<'a> Worker<'a> {
     fn run(mut self) -> WorkAggregateResult {
         while let Some(work) = self.pop_work() {
             let _finish_on_drop = FinishOnDrop(self.num_unfinished);
+            #[cfg(qlc_verif)]
+            crate::verif::yield_point();
+            #[cfg(qlc_verif)]
+            crate::verif::event("run", Some(work.path()));
             match work.run(&self.pool.compile_config, &self.pool.schema) {
                 WorkResult::CompileResult {
                     global_types_used,
@@ -155,17 +168,31 @@ impl<'a> Worker<'a> {
                     );
                 }
             }
+            #[cfg(qlc_verif)]
+            crate::verif::event("done", Some(work.path()));
         }
+        #[cfg(qlc_verif)]
+        crate::verif::event("quit", None);
         self.aggregate
     }
 
     fn push_work(&self, work: Work) {
+        #[cfg(qlc_verif)]
+        crate::verif::event("push", Some(work.path()));
+        #[cfg(qlc_verif)]
+        crate::verif::yield_point();
         self.num_unfinished.fetch_add(1, Ordering::SeqCst);
+        #[cfg(qlc_verif)]
+        crate::verif::yield_point();
         self.tx.send(work).unwrap();
+        #[cfg(qlc_verif)]
+        crate::verif::yield_point();
     }
 
     fn pop_work(&self) -> Option<Work> {
         loop {
+            #[cfg(qlc_verif)]
+            crate::verif::yield_point();
             match self.rx.try_recv() {
                 Ok(work) => return Some(work),
                 // Work is counted before it's queued and until it has queued all of its
-- 
2.43.0


From 328846799d50c93e97ed8dde190f928b448effb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 25/41] fix: leave out possible types that a merged field can
 not have

A field can be selected both through an interface and through a type which
implements it and declares a narrower type for the field. The types that only
the interface's declaration allows were kept, without the fields that were
selected through the narrower one.
---
 src/graphql/ir.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 6ce3a9d..ba27acc 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -476,7 +476,13 @@ impl<'a> FieldTraversal<'a> {
     fn extend_from(&mut self, other: Self, position: Pos) -> Result<()> {
         match self {
             Self::Complex(self_complex) => match other {
-                Self::Complex(other_complex) => self_complex.extend_from(other_complex, position),
+                Self::Complex(other_complex) => {
+                    // Interfaces can declare a wider type for a field than what implements them
+                    self_complex.concrete_objects.retain(|type_name, _| {
+                        other_complex.concrete_objects.contains_key(type_name)
+                    });
+                    self_complex.extend_from(other_complex, position)
+                }
                 Self::Terminal(other_terminal) => Err(Error::MixedTerminalAndComplexFields {
                     complex_type_name: self_complex.type_name.to_string(),
                     terminal_type_name: other_terminal.type_name.to_string(),
-- 
2.43.0


From b2731ed7e4bab32443fda6cf4ff70a21fa9c3e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 26/41] fix: locate the error for a type that the schema does
 not have

The message had neither the path of the document nor the position in it, so
nothing told which of the documents was wrong.
---
 src/graphql/ir.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index ba27acc..7cbda5e 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -100,7 +100,7 @@ pub enum Error {
         possible_field_names: Vec<String>,
     },
     Variable(variable::Error),
-    MissingType(String),
+    MissingType(String, Pos),
     UnexpectedComplexTravseral(String),
     InputObjectOnSelection {
         field_name: String,
@@ -189,8 +189,12 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
             Error::Variable(var_error) => {
                 PrintableMessage::from((contents, file_path, var_error))
             }
-            Error::MissingType(type_name) => PrintableMessage::new_simple_program_error(
+            Error::MissingType(type_name, position) => PrintableMessage::new_compile_error(
                 &format!("failed lookup of type `{type_name}`"),
+                file_path,
+                contents,
+                &position,
+                None,
             ),
             Error::InputObjectOnSelection { type_name, field_name } => {
                 PrintableMessage::new_simple_program_error(
@@ -438,7 +442,7 @@ impl<'a, 'b> TryFrom<(&'a CompileContext<'a, 'b>, &'a str, Pos)> for ComplexTrav
         let schema_type = context
             .schema
             .get_type_for_name(type_name)
-            .ok_or_else(|| Error::MissingType(type_name.to_string()))?;
+            .ok_or_else(|| Error::MissingType(type_name.to_string(), position))?;
         let fields_lookup = schema_type
             .definition
             .get_fields_lookup()
-- 
2.43.0


From 8b13ebd20038d2daee07561c1368fc00758573dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 27/41] fix: reject variables of types that are no input types

They made the globals module fail with an error that named no document, so the
enums and input objects of all of the other documents were not written either.
---
 src/graphql/schema.rs   |  7 +++++++
 src/graphql/variable.rs | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/graphql/schema.rs b/src/graphql/schema.rs
index 835a083..ac1a1ef 100644
--- a/src/graphql/schema.rs
+++ b/src/graphql/schema.rs
@@ -76,6 +76,13 @@ impl TypeDefinition {
             _ => None,
         }
     }
+
+    pub fn is_input(&self) -> bool {
+        matches!(
+            self,
+            TypeDefinition::Enum(_) | TypeDefinition::Scalar(_) | TypeDefinition::InputObject(_)
+        )
+    }
 }
 
 fn get_fields_for_complex(
diff --git a/src/graphql/variable.rs b/src/graphql/variable.rs
index 94d75e0..8f525fc 100644
--- a/src/graphql/variable.rs
+++ b/src/graphql/variable.rs
@@ -10,6 +10,7 @@ use std::path::Path;
 #[derive(Debug)]
 pub enum Error {
     UnknownCustomeVariableType(String, Pos),
+    NotInputType(String, Pos),
     UnprocessableVariableType(String, Pos),
     ListOfListNotSupported(String, Pos),
 }
@@ -42,6 +43,9 @@ impl<'a, 'b, 'c> TryFrom<(&'a CompileContext<'a, 'b>, &'c str, Pos)> for Variabl
                         from.2,
                     ))
                 }
+                Some(custom_type) if !custom_type.definition.is_input() => {
+                    return Err(Error::NotInputType(custom_type_name.to_string(), from.2))
+                }
                 Some(_) => VariableType::Custom(custom_type_name),
             },
         };
@@ -61,6 +65,13 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     None,
                 )
             }
+            Error::NotInputType(name, position) => PrintableMessage::new_compile_error(
+                &format!("unexpected type for variable `{name}`"),
+                file_path,
+                contents,
+                &position,
+                Some("Variables must be scalars, enums or input objects, or lists of these."),
+            ),
             Error::UnprocessableVariableType(name, position) => {
                 PrintableMessage::new_program_error(
                     &format!("failed to process variable `{name}`"),
-- 
2.43.0


From 1c00eaab00311f6ec1d60033b1f21537441af8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 28/41] fix: locate the error for a spread on an input object

The message had neither the path of the document nor the position in it.
---
 src/graphql/ir.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 7cbda5e..010c2f1 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -460,7 +460,12 @@ impl<'a, 'b> TryFrom<(&'a CompileContext<'a, 'b>, &'a str, Pos)> for ComplexTrav
                     .map(|possible_type| (possible_type.as_ref(), UniqueFields::new()))
                     .collect()
             }
-            _ => return Err(Error::UnexpectedComplexTravseral(type_name.to_string())),
+            _ => {
+                return Err(Error::SelectionSetOnWrongType(
+                    type_name.to_string(),
+                    position,
+                ))
+            }
         };
         Ok(ComplexTraversal {
             type_name,
-- 
2.43.0


From c50c1aa0b1f64d50dcde53e74b00874bd1d20ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 29/41] fix: leave no schema file behind if the endpoint to
 download from is unusable

---
 pkg/npm/lib/download.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index c248f0f..2477442 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -91,7 +91,6 @@ function download() {
   }
   const outFilePath = outFilePathRaw || "schema.json";
   return new Promise((resolve, reject) => {
-    const outFile = createWriteStream(outFilePath);
     const cleanup = (err) => {
       return unlink(outFilePath, (deleteErr) => {
         if (deleteErr) {
@@ -115,6 +114,8 @@ function download() {
       })
       .on("error", cleanup)
       .end(JSON.stringify({ query: introspectionQuery }));
+    // Not before the request, as that throws if the endpoint is unusable
+    const outFile = createWriteStream(outFilePath);
   });
 }
 
-- 
2.43.0


From e568be5c4c44128bfefa91d9755d46055dbc39f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 30/41] fix: do not succeed if the downloaded schema could not
 be written in full

---
 pkg/npm/lib/download.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index 2477442..29adc31 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -116,6 +116,8 @@ function download() {
       .end(JSON.stringify({ query: introspectionQuery }));
     // Not before the request, as that throws if the endpoint is unusable
     const outFile = createWriteStream(outFilePath);
+    // If it can't be written, the pipeline may wait for the response while nothing else does
+    outFile.on("error", cleanup);
   });
 }
 
-- 
2.43.0


From f0ffa014036f9c5a83213e0fc8b9d9f7c1123aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 31/41] fix: do not end as if installed if the archive could
 not be written in full

---
 pkg/npm/lib/postinstall.js | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index 5cb6af3..fd21bcb 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -48,8 +48,11 @@ function download(fullUrl, dest) {
     httpsGet(opts, (response) => {
       switch (response.statusCode) {
         case 200:
-          return pipeline(response, createWriteStream(dest), (err) =>
-            err ? cleanup(err) : resolve(),
+          return pipeline(
+            response,
+            // If it can't be written, the pipeline may wait for the response while nothing else does
+            createWriteStream(dest).on("error", cleanup),
+            (err) => (err ? cleanup(err) : resolve()),
           );
         case 302:
           return download(response.headers.location, dest)
-- 
2.43.0


From bc3e45da990db05db3ed254cf046a3150c92901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 32/41] fix: schema download: remove the file only once it
 cannot be created any more

---
 pkg/npm/lib/download.js | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index 29adc31..f029797 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -91,13 +91,15 @@ function download() {
   }
   const outFilePath = outFilePathRaw || "schema.json";
   return new Promise((resolve, reject) => {
+    let closed; // until when opening the file may still create it
     const cleanup = (err) => {
-      return unlink(outFilePath, (deleteErr) => {
+      outFile.destroy();
+      return closed.then(() => unlink(outFilePath, (deleteErr) => {
         if (deleteErr) {
           console.error(deleteErr);
         }
         reject(err);
-      });
+      }));
     };
     const parsedUrl = new URL(endpoint);
     const opts = {
@@ -116,6 +118,7 @@ function download() {
       .end(JSON.stringify({ query: introspectionQuery }));
     // Not before the request, as that throws if the endpoint is unusable
     const outFile = createWriteStream(outFilePath);
+    closed = new Promise((fileClosed) => outFile.on("close", fileClosed));
     // If it can't be written, the pipeline may wait for the response while nothing else does
     outFile.on("error", cleanup);
   });
-- 
2.43.0


From 8c9c9cce15ef66c9f0f1a7628d3cc5cc489bf7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 33/41] fix: installer: remove the archive only once it cannot
 be created any more

---
 pkg/npm/lib/postinstall.js | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index fd21bcb..4de286a 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -34,8 +34,10 @@ function getTarget() {
 
 function download(fullUrl, dest) {
   return new Promise((resolve, reject) => {
+    let closed; // until when opening the file may still create it
     const cleanup = (err) =>
-      unlink(dest)
+      Promise.resolve(closed)
+        .then(() => unlink(dest))
         .catch(console.error)
         .finally(() => {
           reject(err);
@@ -47,13 +49,15 @@ function download(fullUrl, dest) {
     };
     httpsGet(opts, (response) => {
       switch (response.statusCode) {
-        case 200:
-          return pipeline(
-            response,
-            // If it can't be written, the pipeline may wait for the response while nothing else does
-            createWriteStream(dest).on("error", cleanup),
-            (err) => (err ? cleanup(err) : resolve()),
+        case 200: {
+          const file = createWriteStream(dest);
+          closed = new Promise((fileClosed) => file.on("close", fileClosed));
+          // If it can't be written, the pipeline may wait for the response while nothing else does
+          file.on("error", cleanup);
+          return pipeline(response, file, (err) =>
+            err ? cleanup(err) : resolve(),
           );
+        }
         case 302:
           return download(response.headers.location, dest)
             .then(resolve)
-- 
2.43.0


From a5be3b759ca5a4d13113fce528516ba179503c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 34/41] fix: count lines correctly in documents with CR LF or
 CR line ends

---
 src/graphql.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 26adcc3..fce2c39 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -60,7 +60,8 @@ fn read_graphql_file(path: &Path) -> Result<String, PrintableMessage> {
             let mut buf_reader = BufReader::new(file);
             let mut contents = String::new();
             buf_reader.read_to_string(&mut contents)?;
-            Ok(contents)
+            // The parser doesn't count the lines of other line ends correctly
+            Ok(contents.replace("\r\n", "\n").replace('\r', "\n"))
         })
         .map_err(|io_error| PrintableMessage::new_compile_error_from_read_io_error(&io_error, path))
 }
-- 
2.43.0


From d91a66c69b2c1114e155f29bde07f04de7a7550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 35/41] fix: honour imports after a byte order mark

---
 src/graphql.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index fce2c39..f180020 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -61,7 +61,12 @@ fn read_graphql_file(path: &Path) -> Result<String, PrintableMessage> {
             let mut contents = String::new();
             buf_reader.read_to_string(&mut contents)?;
             // The parser doesn't count the lines of other line ends correctly
-            Ok(contents.replace("\r\n", "\n").replace('\r', "\n"))
+            let contents = contents.replace("\r\n", "\n").replace('\r', "\n");
+            // Only the parser knows of byte order marks, imports are looked for without it
+            Ok(match contents.strip_prefix('\u{feff}') {
+                Some(without_mark) => without_mark.to_string(),
+                None => contents,
+            })
         })
         .map_err(|io_error| PrintableMessage::new_compile_error_from_read_io_error(&io_error, path))
 }
-- 
2.43.0


From 177b001fe6bc2b065ed875acaec3636b07baa611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 36/41] fix: declare what requiring the npm package really
 gives

The module is the path itself, not an object with a default export.
---
 pkg/npm/lib/index.d.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/npm/lib/index.d.ts b/pkg/npm/lib/index.d.ts
index 40569da..b46cd1f 100644
--- a/pkg/npm/lib/index.d.ts
+++ b/pkg/npm/lib/index.d.ts
@@ -1,2 +1,2 @@
 declare const binaryPath: string;
-export default binaryPath;
+export = binaryPath;
-- 
2.43.0


From 0f82aa332beaab5a7ab4a0777db1244aaa30f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 37/41] fix: compile selections on interfaces without
 implementations

---
 src/typescript.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index 96e4b17..f00e5b3 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -23,7 +23,6 @@ pub enum Error {
         field_type_name: String,
         field_name: String,
     },
-    ExpectedAtLeastOnePossibility,
 }
 
 impl From<Error> for PrintableMessage {
@@ -43,9 +42,6 @@ impl From<Error> for PrintableMessage {
             } => PrintableMessage::new_simple_program_error(&format!(
                 "unexpected field `{field_name}` of type `{field_type_name}`: must be enum, another input object, or scalar",
             )),
-            Error::ExpectedAtLeastOnePossibility => PrintableMessage::new_simple_program_error(
-                "could not determine possiblities for complex type",
-            ),
         }
     }
 }
@@ -383,7 +379,8 @@ fn type_definitions_from_complex_field_collection(
 ) -> Result<Vec<Typescript>> {
     let num_possible_types = collection.possibilities.len();
     if num_possible_types == 0 {
-        return Err(Error::ExpectedAtLeastOnePossibility);
+        // An interface without implementations has no values
+        return Ok(vec![format!("export type {main_type} = never;")]);
     }
 
     let first_possiblity = &collection.possibilities[0];
-- 
2.43.0


From 757992ae68e3bd33e78cda4c3037f3ad4766d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:00 +0000
Subject: [PATCH 38/41] fix: import a global type under another name where a
 document defines a type of its name

An operation or fragment called like an enum or input object it uses (or whose
variables or nested types are) declared a type in its own module that it also
imported, so that the module did not type-check.
---
 src/typescript.rs | 77 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 22 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index f00e5b3..100d7a5 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -356,9 +356,34 @@ fn is_same_collection_type(a: &ir::ComplexCollection, b: &ir::ComplexCollection)
             })
 }
 
+/// The global types a document uses
+struct GlobalTypes<'a> {
+    document_name: &'a str,
+    used: HashSet<String>,
+}
+
+impl GlobalTypes<'_> {
+    /// What a global type is called in the document's module, which may define a type of that name
+    fn local_name(&self, name: &str) -> Typescript {
+        let is_own_type_name = name
+            .strip_prefix(self.document_name)
+            .is_some_and(|rest| rest.is_empty() || rest == "Variables" || rest.starts_with('_'));
+        if is_own_type_name {
+            format!("Global${name}")
+        } else {
+            name.to_string()
+        }
+    }
+
+    fn reference(&mut self, name: &str) -> Typescript {
+        self.used.insert(name.to_string());
+        self.local_name(name)
+    }
+}
+
 fn type_definitions_from_smoosh_complex_ir<'a>(
     config: &CompileConfig,
-    global_types: &mut HashSet<String>,
+    global_types: &mut GlobalTypes<'_>,
     complex: &ir::Complex,
     possibilities: impl Iterator<Item = &'a str>,
     smooth_type_name: &str,
@@ -373,7 +398,7 @@ fn type_definitions_from_smoosh_complex_ir<'a>(
 
 fn type_definitions_from_complex_field_collection(
     config: &CompileConfig,
-    global_types: &mut HashSet<String>,
+    global_types: &mut GlobalTypes<'_>,
     collection: &ir::ComplexCollection,
     main_type: &str,
 ) -> Result<Vec<Typescript>> {
@@ -459,7 +484,7 @@ fn type_definitions_from_complex_field_collection(
 
 fn type_definitions_from_complex_ir(
     config: &CompileConfig,
-    global_types: &mut HashSet<String>,
+    global_types: &mut GlobalTypes<'_>,
     complex_ir: &'_ ir::Complex,
     prop_path: &str,
 ) -> Result<Vec<Typescript>> {
@@ -477,10 +502,7 @@ fn type_definitions_from_complex_ir(
                 )?);
                 sub_prop_path
             }
-            ir::FieldType::Enum(name) => {
-                global_types.insert(name.clone());
-                name.clone()
-            }
+            ir::FieldType::Enum(name) => global_types.reference(name),
             ir::FieldType::Scalar(scalar_type) => type_name_from_scalar(config, scalar_type),
             ir::FieldType::TypeName => format!("\"{}\"", complex_ir.name),
         };
@@ -510,7 +532,7 @@ fn type_definitions_from_complex_ir(
 fn compile_variable_type_name(
     config: &CompileConfig,
     schema: &schema::Schema,
-    global_types: &mut HashSet<String>,
+    global_types: &mut GlobalTypes<'_>,
     var_ir: &variable::Variable<'_>,
 ) -> Result<Typescript> {
     let type_name = match var_ir.type_ir {
@@ -524,10 +546,7 @@ fn compile_variable_type_name(
             match &global_type.definition {
                 schema::TypeDefinition::Scalar(_) => compile_custom_scalar_name(config, name),
 
-                _ => {
-                    global_types.insert((*name).to_string());
-                    name.to_string()
-                }
+                _ => global_types.reference(name),
             }
         }
     };
@@ -537,7 +556,7 @@ fn compile_variable_type_name(
 fn compile_variables_type_definition(
     config: &CompileConfig,
     schema: &schema::Schema,
-    global_types: &mut HashSet<String>,
+    global_types: &mut GlobalTypes<'_>,
     op_ir: &ir::Operation<'_>,
 ) -> Result<Option<TypescriptVariableDefinition>> {
     op_ir
@@ -583,21 +602,32 @@ fn compile_variables_type_definition(
 fn compile_imports(
     config: &CompileConfig,
     typed_documentnode_name: &str,
-    used_globals: &HashSet<String>,
+    global_types: &GlobalTypes<'_>,
 ) -> Typescript {
-    if used_globals.is_empty() {
+    if global_types.used.is_empty() {
         format!(
             "import type {{ {typed_documentnode_name} }} from \"{}\";\n\n",
             config.typed_graphql_documentnode_module_name
         )
     } else {
-        let mut sorted_names: Vec<&str> = used_globals.iter().map(|g| g.as_ref()).collect();
+        let mut sorted_names: Vec<&str> = global_types.used.iter().map(|g| g.as_ref()).collect();
         // For test and file signature stability
         sorted_names.sort_unstable();
+        let import_specifiers: Vec<Typescript> = sorted_names
+            .into_iter()
+            .map(|name| {
+                let local_name = global_types.local_name(name);
+                if local_name == name {
+                    local_name
+                } else {
+                    format!("{name} as {local_name}")
+                }
+            })
+            .collect();
         format!(
             "import type {{ {typed_documentnode_name} }} from \"{}\";\nimport type {{ {} }} from \"{}\";\n\n",
             config.typed_graphql_documentnode_module_name,
-            sorted_names.join(", "),
+            import_specifiers.join(", "),
             config.global_types_module_name,
         )
     }
@@ -608,22 +638,25 @@ pub fn compile_ir(
     config: &CompileConfig,
     schema: &schema::Schema,
 ) -> Result<Compile> {
-    let mut global_types_used = HashSet::new();
+    let mut global_types = GlobalTypes {
+        document_name: &op_ir.name,
+        used: HashSet::new(),
+    };
     let type_definitions = type_definitions_from_complex_field_collection(
         config,
-        &mut global_types_used,
+        &mut global_types,
         &op_ir.collection,
         &op_ir.name,
     )?;
     let variable_type_def =
-        compile_variables_type_definition(config, schema, &mut global_types_used, op_ir)?;
+        compile_variables_type_definition(config, schema, &mut global_types, op_ir)?;
     let typed_documentnode_name = match op_ir.kind {
         ir::OperationKind::Mutation => "MutationDocumentNode",
         ir::OperationKind::Subscription => "SubscriptionDocumentNode",
         ir::OperationKind::Fragment => "FragmentDocumentNode",
         ir::OperationKind::Query => "QueryDocumentNode",
     };
-    let imports = compile_imports(config, typed_documentnode_name, &global_types_used);
+    let imports = compile_imports(config, typed_documentnode_name, &global_types);
     let variables = variable_type_def
         .as_ref()
         .map(|def| def.contents.as_str())
@@ -642,6 +675,6 @@ pub fn compile_ir(
             "{HEADER}{imports}{}{variables}\n\ndeclare const graphqlDocument: {typed_documentnode_annotation};\nexport default graphqlDocument;",
             type_definitions.join("\n\n")
         ),
-        global_types_used,
+        global_types_used: global_types.used,
     })
 }
-- 
2.43.0


From 40616a8a4b9febb6aa865b3d6b00e695b605a2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:28 +0000
Subject: [PATCH 39/41] fix: chains of many input objects do not overflow the
 stack

---
 src/typescript.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index 100d7a5..fd23c5f 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -150,20 +150,31 @@ fn add_sub_input_objects<'a>(
     schema: &'a schema::Schema,
     current_type: &'a schema::Type,
 ) -> Result<()> {
-    if let schema::TypeDefinition::InputObject(input_object_type) = &current_type.definition {
-        for field in input_object_type.fields.values() {
-            add_sub_input_object_field(name_to_type, schema, &field.type_description, &field.name)?;
+    // Input objects can refer to each other in chains too long for recursion
+    let mut pending = vec![current_type];
+    while let Some(current_type) = pending.pop() {
+        if let schema::TypeDefinition::InputObject(input_object_type) = &current_type.definition {
+            for field in input_object_type.fields.values() {
+                pending.extend(add_sub_input_object_field(
+                    name_to_type,
+                    schema,
+                    &field.type_description,
+                    &field.name,
+                )?);
+            }
         }
     }
     Ok(())
 }
 
+/// Returns the type of the field if its own fields are to be added too
+
 fn add_sub_input_object_field<'a>(
     name_to_type: &mut HashMap<&'a str, &'a schema::Type>,
     schema: &'a schema::Schema,
     field_type: &'a schema_field::FieldType,
     field_name: &'a str,
-) -> Result<()> {
+) -> Result<Option<&'a schema::Type>> {
     let concrete = field_type.reveal_concrete();
     let type_name = &concrete.name;
     match concrete.definition {
@@ -173,7 +184,7 @@ fn add_sub_input_object_field<'a>(
                 .ok_or_else(|| Error::MissingType(type_name.to_string()))?;
             // Input objects can be recursive
             if name_to_type.insert(type_name, global_type).is_none() {
-                add_sub_input_objects(name_to_type, schema, global_type)?;
+                return Ok(Some(global_type));
             }
         }
         schema_field::FieldTypeDefinition::Enum => {
@@ -190,7 +201,7 @@ fn add_sub_input_object_field<'a>(
             })
         }
     }
-    Ok(())
+    Ok(None)
 }
 
 fn global_types_from_names(
-- 
2.43.0


From 62bdd053dc4109661959af215f10f5993b484c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:28 +0000
Subject: [PATCH 40/41] fix: fragments that spread one another deeply do not
 overflow the stack

---
 src/graphql/ir.rs  | 18 ++++++++++++++++--
 src/worker_pool.rs |  8 +++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 010c2f1..92eab8a 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -146,7 +146,7 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                 file_path,
                 contents,
                 &position,
-                Some("This fragment has errors or it ends up spreading itself. Check the document that defines it."),
+                Some("This fragment has errors, it ends up spreading itself or its spreads are nested too deeply. Check the document that defines it."),
             ),
             Error::MissingTypeConditionOnInlineFragment(position) => PrintableMessage::new_compile_error(
                 "fragment missing type condition on inline fragment",
@@ -230,12 +230,18 @@ type OperationResult<'a> =
     std::result::Result<(Operation<'a>, Vec<Warning>), (Vec<Error>, Vec<Warning>)>;
 type ImportedFragments<'a> = HashMap<String, parsed_query::FragmentDefinition<'a, ParsedTextType>>;
 
+/// How deep selections can be nested for a fragment to be spread in them. The parser limits the
+/// depth of a document, but nothing else limits that of fragments that spread one another.
+const MAX_SPREAD_DEPTH: usize = 400;
+
 pub struct CompileContext<'a, 'b> {
     pub schema: &'a schema::Schema,
     show_deprecation_warnings: bool,
     imported_fragments: ImportedFragments<'b>,
     /// Names of the imported fragments we are currently inside of, to detect cycles
     active_spreads: std::cell::RefCell<Vec<String>>,
+    /// How many selection sets we are currently inside of
+    depth: std::cell::Cell<usize>,
     warnings: std::cell::RefCell<Vec<Warning>>,
 }
 
@@ -564,6 +570,7 @@ impl<'a, 'b> Operation<'a> {
             show_deprecation_warnings,
             imported_fragments,
             active_spreads: std::cell::RefCell::new(Vec::new()),
+            depth: std::cell::Cell::new(0),
             warnings: std::cell::RefCell::new(Vec::new()),
         };
         let operation = match definition {
@@ -764,6 +771,8 @@ fn collect_fields_from_selection_set<'a, 'b>(
     complex_parent: &mut ComplexTraversal<'a>,
     jump_state: ForeignFragmentJumpState,
 ) -> ResultMany<()> {
+    let depth = context.depth.get();
+    context.depth.set(depth + 1);
     let mut errors = Vec::new();
     for selection in &selection_set.items {
         // A foreign fragment with any error can't be spread, so there is no need for all of them.
@@ -799,7 +808,10 @@ fn collect_fields_from_selection_set<'a, 'b>(
             parsed_query::Selection::FragmentSpread(spread) => {
                 let name = &spread.fragment_name;
                 match context.imported_fragments.get(name) {
-                    Some(_) if context.active_spreads.borrow().contains(name) => {
+                    Some(_)
+                        if depth >= MAX_SPREAD_DEPTH
+                            || context.active_spreads.borrow().contains(name) =>
+                    {
                         errors.push(Error::InvalidFragment(name.clone(), spread.position));
                         continue;
                     }
@@ -862,6 +874,8 @@ fn collect_fields_from_selection_set<'a, 'b>(
         }
     }
 
+    context.depth.set(depth);
+
     if errors.is_empty() {
         Ok(())
     } else {
diff --git a/src/worker_pool.rs b/src/worker_pool.rs
index 225604d..bd54bb4 100644
--- a/src/worker_pool.rs
+++ b/src/worker_pool.rs
@@ -9,6 +9,9 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 use std::thread;
 use std::time::Duration;
 
+/// Documents are compiled recursively, this is enough for the deepest ones that are allowed
+const WORKER_STACK_SIZE: usize = 8 * 1024 * 1024;
+
 #[derive(Debug)]
 enum WorkResult {
     MoreWork(Vec<Work>),
@@ -241,7 +244,10 @@ impl WorkerPool {
                         tx: tx.clone(),
                         rx: rx.clone(),
                     };
-                    s.spawn(|| worker.run())
+                    thread::Builder::new()
+                        .stack_size(WORKER_STACK_SIZE)
+                        .spawn_scoped(s, || worker.run())
+                        .expect("failed to spawn a worker")
                 })
                 .collect::<Vec<_>>();
 
-- 
2.43.0


From 055e5f1a468f0fcc58e08f32736c55ef6f98ccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:36 +0000
Subject: [PATCH 41/41] fix: types of different selections whose paths are
 joined to the same name are kept apart

---
 src/typescript.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index fd23c5f..7bf4485 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -367,10 +367,12 @@ fn is_same_collection_type(a: &ir::ComplexCollection, b: &ir::ComplexCollection)
             })
 }
 
-/// The global types a document uses
+/// The global types a document uses, and what its own types are called
 struct GlobalTypes<'a> {
     document_name: &'a str,
     used: HashSet<String>,
+    /// Names of the types that the document's module itself defines
+    defined: HashSet<Typescript>,
 }
 
 impl GlobalTypes<'_> {
@@ -386,6 +388,14 @@ impl GlobalTypes<'_> {
         }
     }
 
+    /// Paths of different selections can be joined to the same name, ie `a_b` and `b` in `a`
+    fn define(&mut self, mut name: Typescript) -> Typescript {
+        while !self.defined.insert(name.clone()) {
+            name.push('$');
+        }
+        name
+    }
+
     fn reference(&mut self, name: &str) -> Typescript {
         self.used.insert(name.to_string());
         self.local_name(name)
@@ -468,7 +478,7 @@ fn type_definitions_from_complex_field_collection(
             maybe_common_representative = Some(possibility);
             continue;
         }
-        let possiblity_prop_path = format!("{main_type}_{}", possibility.name);
+        let possiblity_prop_path = global_types.define(format!("{main_type}_{}", possibility.name));
         definitions.append(&mut type_definitions_from_complex_ir(
             config,
             global_types,
@@ -479,7 +489,7 @@ fn type_definitions_from_complex_field_collection(
     }
 
     if let Some(common_representative) = maybe_common_representative {
-        let smoosh_type_name = format!("{main_type}_$$other");
+        let smoosh_type_name = global_types.define(format!("{main_type}_$$other"));
         definitions.append(&mut type_definitions_from_smoosh_complex_ir(
             config,
             global_types,
@@ -504,7 +514,8 @@ fn type_definitions_from_complex_ir(
     for field_ir in &complex_ir.fields {
         let flat_type_name = match &field_ir.type_ir {
             ir::FieldType::Complex(complex_collection) => {
-                let sub_prop_path = format!("{prop_path}_{}", field_ir.prop_name);
+                let sub_prop_path =
+                    global_types.define(format!("{prop_path}_{}", field_ir.prop_name));
                 definitions.extend(type_definitions_from_complex_field_collection(
                     config,
                     global_types,
@@ -652,6 +663,7 @@ pub fn compile_ir(
     let mut global_types = GlobalTypes {
         document_name: &op_ir.name,
         used: HashSet::new(),
+        defined: HashSet::new(),
     };
     let type_definitions = type_definitions_from_complex_field_collection(
         config,
-- 
2.43.0

