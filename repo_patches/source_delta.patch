From 867e2d53fabf087a1f0dc1f6bfea8b2973f52fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:22 +0000
Subject: [PATCH 01/42] fix: empty data segments hide the data at their offset,
 data at the end of memory is dropped

ItemsBuilder::link_data recorded empty segments, which define no memory but
replaced a segment with the same start, and ignored segments that reach the
end of the 32-bit address space.
---
 ir/ir.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index 5cb3d22..4580909 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -79,8 +79,9 @@ impl ItemsBuilder {
 
     /// Add a range of static data and the `Id` that defines it.
     pub fn link_data(&mut self, offset: i64, len: usize, id: Id) {
-        if offset >= 0 && offset <= i64::from(u32::MAX) && offset as usize + len < u32::MAX as usize
-        {
+        // Empty data never defines memory, and must not hide the data that
+        // begins at or extends over its offset.
+        if len > 0 && offset >= 0 && offset <= i64::from(u32::MAX) {
             self.data.insert(offset as u64, (id, len as u64));
         }
     }
-- 
2.43.0


From 5b4d6e88ef4e59d969a6f4b56f37cb1576a5a478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:22 +0000
Subject: [PATCH 02/42] fix: treat wasm addresses as unsigned when linking
 loads to data segments

A negative i32.const address was sign-extended to 64 bits, so that adding the
load's offset could overflow and addresses above 2 GiB never matched.
---
 parser/wasm_parse/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index dee5313..d626e7d 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -609,7 +609,9 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     | Operator::F32Load { memarg }
                     | Operator::F64Load { memarg } => {
                         if let Some(Operator::I32Const { value }) = prev {
-                            if let Some(data_id) = items.get_data(value as u64 + memarg.offset) {
+                            // Addresses are unsigned and do not wrap around.
+                            let address = u64::from(value as u32).checked_add(memarg.offset);
+                            if let Some(data_id) = address.and_then(|a| items.get_data(a)) {
                                 edges.push((body_id, data_id));
                             }
                         }
@@ -972,7 +974,8 @@ impl<'a> Parse<'a> for wasmparser::DataSectionReader<'a> {
             if let wasmparser::DataKind::Active { init_expr, .. } = d.kind {
                 let mut iter = init_expr.get_operators_reader();
                 let offset = match iter.read()? {
-                    Operator::I32Const { value } => Some(i64::from(value)),
+                    // Memory addresses are unsigned.
+                    Operator::I32Const { value } => Some(i64::from(value as u32)),
                     Operator::I64Const { value } => Some(value),
                     _ => None,
                 };
-- 
2.43.0


From 4f36edffb6236cc96b340e4da64ace63cfd0435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:19 +0000
Subject: [PATCH 03/42] fix: implement CSV output of the garbage analysis

It panicked with "not implemented" although the format is offered for it.
---
 analyze/analyses/garbage.rs | 47 +++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/garbage.rs b/analyze/analyses/garbage.rs
index 77fce23..c2e4d50 100644
--- a/analyze/analyses/garbage.rs
+++ b/analyze/analyses/garbage.rs
@@ -5,6 +5,8 @@ use petgraph::visit::Walker;
 
 use crate::formats::json;
 use crate::formats::table::{Align, Table};
+use csv;
+use serde_derive::Serialize;
 use twiggy_ir as ir;
 use twiggy_opt as opt;
 use twiggy_traits as traits;
@@ -137,8 +139,49 @@ impl traits::Emit for Garbage {
     }
 
     #[cfg(feature = "emit_csv")]
-    fn emit_csv(&self, _items: &ir::Items, _dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        unimplemented!();
+    fn emit_csv(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
+        #[derive(Serialize, Debug)]
+        #[serde(rename_all = "PascalCase")]
+        struct CsvRecord {
+            name: String,
+            bytes: u32,
+            size_percent: f64,
+        }
+
+        let record = |name: String, bytes: u32| CsvRecord {
+            name,
+            bytes,
+            size_percent: f64::from(bytes) / f64::from(items.size()) * 100.0,
+        };
+        let total_size = |ids: &[ir::Id]| ids.iter().map(|&id| items[id].size()).sum::<u32>();
+
+        let mut wtr = csv::Writer::from_writer(dest);
+
+        let shown = self.items.len().min(self.limit);
+        for &id in &self.items[..shown] {
+            let item = &items[id];
+            wtr.serialize(record(item.name().to_string(), item.size()))?;
+        }
+
+        let remaining = &self.items[shown..];
+        if !remaining.is_empty() {
+            let name = format!("... and {} more", remaining.len());
+            wtr.serialize(record(name, total_size(remaining)))?;
+        }
+
+        let name = format!("Σ [{} Total Rows]", self.items.len());
+        wtr.serialize(record(name, total_size(&self.items)))?;
+
+        if !self.data_segments.is_empty() {
+            let name = format!(
+                "{} potential false-positive data segments",
+                self.data_segments.len()
+            );
+            wtr.serialize(record(name, total_size(&self.data_segments)))?;
+        }
+
+        wtr.flush()?;
+        Ok(())
     }
 }
 
-- 
2.43.0


From 2a6e3c4bb33ce1b3eab81d49bcde08f223b8ff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 04/42] fix: paths repeats a self-recursive item and its
 callers below itself

---
 analyze/analyses/paths/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index 70b84e0..ec14439 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -109,6 +109,10 @@ fn create_entry(
     let name = item.name().to_string();
     let size = item.size();
 
+    // Temporarily add the current item to the set of discovered nodes, so that
+    // neither it nor any of its ancestors is visited again.
+    seen.insert(id);
+
     // Collect the `ir::Id` values of this entry's children, depending on
     // whether we are ascending or descending the IR-tree.
     let children_ids: Vec<ir::Id> = if opts.descending() {
@@ -127,9 +131,7 @@ fn create_entry(
             .collect()
     };
 
-    // Temporarily add the current item to the set of discovered nodes, and
-    // create an entry for each child. Collect these into a `children` vector.
-    seen.insert(id);
+    // Create an entry for each child. Collect these into a `children` vector.
     let children = children_ids
         .into_iter()
         .map(|id| create_entry(id, items, opts, seen))
-- 
2.43.0


From ee71c6cc45cf662d2f2b83b849ff6e977818e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:19 +0000
Subject: [PATCH 05/42] fix: regular expressions select the synthetic root in
 paths and dominators

---
 analyze/analyses/dominators/mod.rs | 1 +
 analyze/analyses/paths/mod.rs      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/analyze/analyses/dominators/mod.rs b/analyze/analyses/dominators/mod.rs
index 79d99e1..a0c79ac 100644
--- a/analyze/analyses/dominators/mod.rs
+++ b/analyze/analyses/dominators/mod.rs
@@ -40,6 +40,7 @@ pub fn dominators(
         let regexps = regex::RegexSet::new(arguments)?;
         let mut sorted_items: Vec<_> = items
             .iter()
+            .filter(|item| item.id() != items.meta_root())
             .filter(|item| regexps.is_match(&item.name()))
             .map(|item| item.id())
             .collect();
diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index ec14439..f9c0301 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -65,6 +65,7 @@ fn get_starting_positions(items: &ir::Items, opts: &opt::Paths) -> anyhow::Resul
         let regexps = regex::RegexSet::new(opts.functions())?;
         let matches = items
             .iter()
+            .filter(|item| item.id() != items.meta_root())
             .filter(|item| regexps.is_match(item.name()))
             .map(|item| item.id())
             .collect();
-- 
2.43.0


From 5c0dcf1891dd96a583ab5fc196fa22a0dbe7ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:37 +0000
Subject: [PATCH 06/42] fix: paths enumerates all paths of the graph whatever
 the limits

---
 analyze/analyses/paths/mod.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index f9c0301..8a44855 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -29,7 +29,7 @@ pub fn paths(items: &mut ir::Items, opts: &opt::Paths) -> anyhow::Result<Box<dyn
     let opts = opts.clone();
     let entries = get_starting_positions(items, &opts)?
         .iter()
-        .map(|id| create_entry(*id, items, &opts, &mut BTreeSet::new()))
+        .map(|id| create_entry(*id, items, &opts, 0, &mut BTreeSet::new()))
         .collect();
 
     let paths = Paths { opts, entries };
@@ -99,10 +99,15 @@ fn get_starting_positions(items: &ir::Items, opts: &opt::Paths) -> anyhow::Resul
 }
 
 /// Create a `PathsEntry` object for the given item.
+///
+/// Only the part of the tree that will be emitted is expanded: entries beyond
+/// the maximum depth or the maximum number of paths have no children. The
+/// number of paths in the whole graph can be exponential in its size.
 fn create_entry(
     id: ir::Id,
     items: &ir::Items,
     opts: &opt::Paths,
+    depth: u32,
     seen: &mut BTreeSet<ir::Id>,
 ) -> PathsEntry {
     // Determine the item's name and size.
@@ -133,9 +138,21 @@ fn create_entry(
     };
 
     // Create an entry for each child. Collect these into a `children` vector.
+    let max_paths = opts.max_paths() as usize;
     let children = children_ids
         .into_iter()
-        .map(|id| create_entry(id, items, opts, seen))
+        .enumerate()
+        .map(|(i, id)| {
+            if depth < opts.max_depth() && i < max_paths {
+                create_entry(id, items, opts, depth + 1, seen)
+            } else {
+                PathsEntry {
+                    name: items[id].name().to_string(),
+                    size: items[id].size(),
+                    children: vec![],
+                }
+            }
+        })
         .collect();
     seen.remove(&id);
 
-- 
2.43.0


From 1d371969080ea95bc24181860b7dee422a0ce2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 07/42] fix: dominators CSV ignores the requested items

---
 analyze/analyses/dominators/emit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 28b53d5..4734799 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -165,7 +165,9 @@ impl traits::Emit for DominatorTree {
         }
 
         let mut wtr = csv::Writer::from_writer(dest);
-        recursive_add_children(items, &self.opts, &self.tree, items.meta_root(), &mut wtr)?;
+        for id in &self.items {
+            recursive_add_children(items, &self.opts, &self.tree, *id, &mut wtr)?;
+        }
 
         if let Some(UnreachableItemsSummary {
             count,
-- 
2.43.0


From e3bd9baee3f36cf5e4afb15481c22f18b33683cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 08/42] fix: dominators row limit counts rows that are not
 printed and misses requested items

---
 analyze/analyses/dominators/emit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 4734799..785be09 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -36,11 +36,12 @@ impl traits::Emit for DominatorTree {
         ) {
             assert_eq!(id == items.meta_root(), depth == 0);
 
-            if *row > opts.max_rows() || depth > opts.max_depth() {
+            if *row >= opts.max_rows() || depth > opts.max_depth() {
                 return;
             }
 
             if depth > 0 {
+                *row += 1;
                 add_text_item(items, depth, id, table);
             }
 
@@ -48,7 +49,6 @@ impl traits::Emit for DominatorTree {
                 let mut children = children.to_vec();
                 children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
                 for child in children {
-                    *row += 1;
                     recursive_add_rows(
                         table,
                         items,
-- 
2.43.0


From 6ebaa0a84afb71e206b90468c231eb569504794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 09/42] fix: dominators ignores the depth and row limits in
 JSON and CSV

---
 analyze/analyses/dominators/emit.rs | 69 +++++++++++++++++++++++++----
 1 file changed, 61 insertions(+), 8 deletions(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 785be09..8955292 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -98,10 +98,20 @@ impl traits::Emit for DominatorTree {
             items: &ir::Items,
             opts: &opt::Dominators,
             dominator_tree: &BTreeMap<ir::Id, Vec<ir::Id>>,
+            depth: u32,
+            row: &mut u32,
             id: ir::Id,
-            obj: &mut json::Object,
+            arr: &mut json::Array,
         ) -> anyhow::Result<()> {
-            add_json_item(items, id, obj)?;
+            if *row >= opts.max_rows() || depth > opts.max_depth() {
+                return Ok(());
+            }
+
+            if depth > 0 {
+                *row += 1;
+            }
+            let mut obj = arr.object()?;
+            add_json_item(items, id, &mut obj)?;
 
             if let Some(children) = dominator_tree.get(&id) {
                 let mut children = children.to_vec();
@@ -109,8 +119,15 @@ impl traits::Emit for DominatorTree {
 
                 let mut arr = obj.array("children")?;
                 for child in children {
-                    let mut obj = arr.object()?;
-                    recursive_add_children(items, opts, dominator_tree, child, &mut obj)?;
+                    recursive_add_children(
+                        items,
+                        opts,
+                        dominator_tree,
+                        depth + 1,
+                        row,
+                        child,
+                        &mut arr,
+                    )?;
                 }
             }
 
@@ -121,9 +138,18 @@ impl traits::Emit for DominatorTree {
         let mut obj = json::object(dest)?;
         {
             let mut arr = obj.array("items")?;
+            let mut row = 0;
             for curr_id in &self.items {
-                let mut item = arr.object()?;
-                recursive_add_children(items, &self.opts, &self.tree, *curr_id, &mut item)?;
+                let start_depth = if *curr_id == items.meta_root() { 0 } else { 1 };
+                recursive_add_children(
+                    items,
+                    &self.opts,
+                    &self.tree,
+                    start_depth,
+                    &mut row,
+                    *curr_id,
+                    &mut arr,
+                )?;
             }
         }
 
@@ -150,23 +176,50 @@ impl traits::Emit for DominatorTree {
             items: &ir::Items,
             opts: &opt::Dominators,
             dominator_tree: &BTreeMap<ir::Id, Vec<ir::Id>>,
+            depth: u32,
+            row: &mut u32,
             id: ir::Id,
             wtr: &mut csv::Writer<&mut dyn io::Write>,
         ) -> anyhow::Result<()> {
+            if *row >= opts.max_rows() || depth > opts.max_depth() {
+                return Ok(());
+            }
+
+            if depth > 0 {
+                *row += 1;
+            }
             add_csv_item(items, id, wtr)?;
             if let Some(children) = dominator_tree.get(&id) {
                 let mut children = children.to_vec();
                 children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
                 for child in children {
-                    recursive_add_children(items, opts, dominator_tree, child, wtr)?;
+                    recursive_add_children(
+                        items,
+                        opts,
+                        dominator_tree,
+                        depth + 1,
+                        row,
+                        child,
+                        wtr,
+                    )?;
                 }
             }
             Ok(())
         }
 
         let mut wtr = csv::Writer::from_writer(dest);
+        let mut row = 0;
         for id in &self.items {
-            recursive_add_children(items, &self.opts, &self.tree, *id, &mut wtr)?;
+            let start_depth = if *id == items.meta_root() { 0 } else { 1 };
+            recursive_add_children(
+                items,
+                &self.opts,
+                &self.tree,
+                start_depth,
+                &mut row,
+                *id,
+                &mut wtr,
+            )?;
         }
 
         if let Some(UnreachableItemsSummary {
-- 
2.43.0


From 3b7bbfe4033ed8553d9d4f7d0da35e1629768dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:05 +0000
Subject: [PATCH 10/42] fix: diff drops all but one of the items that share a
 name

---
 analyze/analyses/diff.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/analyze/analyses/diff.rs b/analyze/analyses/diff.rs
index d7613f7..b1e3423 100644
--- a/analyze/analyses/diff.rs
+++ b/analyze/analyses/diff.rs
@@ -101,11 +101,13 @@ pub fn diff(
     let max_items = opts.max_items() as usize;
 
     // Given a set of items, create a HashMap of the items' names and sizes.
+    // Items that share a name are accounted for together.
     fn get_names_and_sizes(items: &ir::Items) -> HashMap<&str, i64> {
-        items
-            .iter()
-            .map(|item| (item.name(), i64::from(item.size())))
-            .collect()
+        let mut sizes = HashMap::new();
+        for item in items.iter() {
+            *sizes.entry(item.name()).or_insert(0) += i64::from(item.size());
+        }
+        sizes
     }
 
     // Collect the names and sizes of the items in the old and new collections.
-- 
2.43.0


From 0783792ba8e077c944b4db8422349100ed2625eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 11/42] fix: monos rejects literal names that are not valid
 regular expressions

---
 analyze/analyses/monos/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/analyze/analyses/monos/mod.rs b/analyze/analyses/monos/mod.rs
index b6c1a3a..bcf28c0 100644
--- a/analyze/analyses/monos/mod.rs
+++ b/analyze/analyses/monos/mod.rs
@@ -27,7 +27,12 @@ fn collect_monomorphizations<'a>(
 ) -> anyhow::Result<MonosMap<'a>> {
     let args_given = !opts.functions().is_empty();
     let using_regexps = opts.using_regexps();
-    let regexps = regex::RegexSet::new(opts.functions())?;
+    // Names that are to be taken literally need not be valid expressions.
+    let regexps = if using_regexps {
+        regex::RegexSet::new(opts.functions())?
+    } else {
+        regex::RegexSet::empty()
+    };
 
     let unsorted_monos: BTreeMap<&'a str, BTreeSet<(String, u32)>> = items
         .iter()
-- 
2.43.0


From 12c74e8ad9265af8b4fe5ec4d20d46252f572e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:34 +0000
Subject: [PATCH 12/42] fix: monos merges instantiations with the same name and
 size

---
 analyze/analyses/monos/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/analyze/analyses/monos/mod.rs b/analyze/analyses/monos/mod.rs
index bcf28c0..249abf7 100644
--- a/analyze/analyses/monos/mod.rs
+++ b/analyze/analyses/monos/mod.rs
@@ -1,5 +1,5 @@
 use std::cmp;
-use std::collections::{BTreeMap, BTreeSet};
+use std::collections::BTreeMap;
 
 use regex;
 use twiggy_ir as ir;
@@ -34,7 +34,7 @@ fn collect_monomorphizations<'a>(
         regex::RegexSet::empty()
     };
 
-    let unsorted_monos: BTreeMap<&'a str, BTreeSet<(String, u32)>> = items
+    let unsorted_monos: BTreeMap<&'a str, Vec<(String, u32)>> = items
         .iter()
         .filter_map(|item| {
             if let Some(generic) = item.monomorphization_of() {
@@ -51,15 +51,14 @@ fn collect_monomorphizations<'a>(
         .fold(BTreeMap::new(), |mut monos, (generic, inst)| {
             monos
                 .entry(generic)
-                .or_insert_with(BTreeSet::new)
-                .insert((inst.name().to_string(), inst.size()));
+                .or_insert_with(Vec::new)
+                .push((inst.name().to_string(), inst.size()));
             monos
         });
 
     Ok(unsorted_monos
         .into_iter()
-        .map(|(generic, inst_set)| {
-            let mut insts = inst_set.into_iter().collect::<Vec<_>>();
+        .map(|(generic, mut insts)| {
             insts.sort_by(|(a_name, a_size), (b_name, b_size)| {
                 b_size.cmp(a_size).then(a_name.cmp(b_name))
             });
-- 
2.43.0


From 5af2f00f56cba6dde8317129422ff0c5fd513932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:10 +0000
Subject: [PATCH 13/42] fix: JSON strings with backslashes or control
 characters are not escaped

---
 analyze/formats/json.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/analyze/formats/json.rs b/analyze/formats/json.rs
index c7b5ead..b7d7ea9 100644
--- a/analyze/formats/json.rs
+++ b/analyze/formats/json.rs
@@ -14,8 +14,8 @@ impl<'a> JsonPrimitive for &'a str {
         for c in self.chars() {
             match c {
                 '"' => write!(w, "\\\"")?,
-                '\\' => write!(w, "\\")?,
-                '\n' => writeln!(w,)?,
+                '\\' => write!(w, "\\\\")?,
+                c if c < ' ' => write!(w, "\\u{:04x}", c as u32)?,
                 c => write!(w, "{}", c)?,
             }
         }
-- 
2.43.0


From 0434a2a7b483ba45e9d66a331cf8eec3ef58ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:28 +0000
Subject: [PATCH 14/42] fix: errors while writing the output are lost

---
 traits/traits.rs | 63 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/traits/traits.rs b/traits/traits.rs
index 2be06a0..401cda1 100644
--- a/traits/traits.rs
+++ b/traits/traits.rs
@@ -104,16 +104,22 @@ pub trait Emit {
         destination: &mut dyn io::Write,
         format: OutputFormat,
     ) -> anyhow::Result<()> {
+        let mut destination = ErrorLatch {
+            inner: destination,
+            error: None,
+        };
         match format {
             #[cfg(feature = "emit_text")]
-            OutputFormat::Text => self.emit_text(items, destination),
-            // OutputFormat::Html => self.emit_html(destination),
-            // OutputFormat::Dot => self.emit_dot(destination),
+            OutputFormat::Text => self.emit_text(items, &mut destination),
+            // OutputFormat::Html => self.emit_html(&mut destination),
+            // OutputFormat::Dot => self.emit_dot(&mut destination),
             #[cfg(feature = "emit_csv")]
-            OutputFormat::Csv => self.emit_csv(items, destination),
+            OutputFormat::Csv => self.emit_csv(items, &mut destination),
             #[cfg(feature = "emit_json")]
-            OutputFormat::Json => self.emit_json(items, destination),
-        }
+            OutputFormat::Json => self.emit_json(items, &mut destination),
+        }?;
+        destination.finish()?;
+        Ok(())
     }
 
     /// Emit human readable text.
@@ -134,3 +140,48 @@ pub trait Emit {
     #[cfg(feature = "emit_json")]
     fn emit_json(&self, items: &ir::Items, destination: &mut dyn io::Write) -> anyhow::Result<()>;
 }
+
+/// Forwards to another writer and remembers whether writing ever failed, so
+/// that errors that occur where they cannot be returned, such as in `Drop`, are
+/// not lost.
+struct ErrorLatch<'a> {
+    inner: &'a mut dyn io::Write,
+    error: Option<(io::ErrorKind, String)>,
+}
+
+impl<'a> ErrorLatch<'a> {
+    fn latch<T>(&mut self, result: io::Result<T>) -> io::Result<T> {
+        if let Err(ref e) = result {
+            if e.kind() != io::ErrorKind::Interrupted && self.error.is_none() {
+                self.error = Some((e.kind(), e.to_string()));
+            }
+        }
+        result
+    }
+
+    /// Flush the destination, and return the first error that occurred.
+    fn finish(mut self) -> io::Result<()> {
+        let flushed = io::Write::flush(&mut self);
+        match self.error {
+            Some((kind, message)) => Err(io::Error::new(kind, message)),
+            None => flushed,
+        }
+    }
+}
+
+impl<'a> io::Write for ErrorLatch<'a> {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        let result = self.inner.write(buf);
+        self.latch(result)
+    }
+
+    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
+        let result = self.inner.write_all(buf);
+        self.latch(result)
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        let result = self.inner.flush();
+        self.latch(result)
+    }
+}
-- 
2.43.0


From 3846f7e5543e3e5eb76b61e9231891e537ecf67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 15/42] fix: the diff options cannot be constructed through the
 web API

---
 opt/definitions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opt/definitions.rs b/opt/definitions.rs
index 5a3bbe3..0bf0efc 100644
--- a/opt/definitions.rs
+++ b/opt/definitions.rs
@@ -601,6 +601,11 @@ impl Diff {
 
 #[wasm_bindgen]
 impl Diff {
+    /// Construct a new, default `Diff`.
+    pub fn new() -> Diff {
+        Diff::default()
+    }
+
     /// The maximum number of items to display.
     pub fn max_items(&self) -> u32 {
         if self.all_items {
-- 
2.43.0


From d5c7ef87f27bb5c38991a972bd470e0ca4007813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:37 +0000
Subject: [PATCH 16/42] fix: any last path component starting with h is taken
 for a Rust hash

---
 ir/ir.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index 4580909..9e3df75 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -630,8 +630,10 @@ impl Code {
         // languages. Also, it almost definitely has bugs!
 
         // First, check for Rust-style symbols by looking for Rust's
-        // "::h1234567890" hash from the end of the symbol. If it's there, the
-        // generic function is just the symbol without that hash, so remove it.
+        // "::h0123456789abcdef" hash (16 hexadecimal digits) at the end of the
+        // symbol. If it's there, the generic function is just the symbol
+        // without that hash, so remove it. Other names that start with an "h"
+        // (think `std::hash`) are not hashes.
         //
         // I know what you're thinking, and it's true: mangled (and therefore
         // also demangled) Rust symbols don't include the concrete type(s) used
@@ -640,9 +642,9 @@ impl Code {
         // if we could tell the user more about the monomorphization, but
         // alas... :(
         if let Some(idx) = demangled.rfind("::h") {
-            let idx2 = demangled.rfind("::").unwrap();
-            assert!(idx2 >= idx);
-            if idx2 == idx {
+            // LLVM may have appended a suffix like ".llvm.1234" to the hash.
+            let hash = demangled[idx + "::h".len()..].split('.').next().unwrap();
+            if hash.len() == 16 && hash.bytes().all(|b| b.is_ascii_hexdigit()) {
                 let generic = demangled[..idx].to_string();
                 return Some(generic);
             }
-- 
2.43.0


From c3e937bc07a81651c5c83ba371934bda1a63b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 17/42] fix: out-of-range function, table, memory and global
 indices panic

---
 parser/wasm_parse/mod.rs | 43 +++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index d626e7d..c1d52ff 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -15,6 +15,31 @@ pub struct SectionIndices {
     globals: Vec<Id>,
 }
 
+impl SectionIndices {
+    /// Resolve an index into one of the index spaces above.
+    fn resolve(ids: &[Id], index: u32, what: &str) -> anyhow::Result<Id> {
+        ids.get(index as usize)
+            .cloned()
+            .ok_or_else(|| anyhow!("{} index {} is out of bounds", what, index))
+    }
+
+    fn function(&self, index: u32) -> anyhow::Result<Id> {
+        Self::resolve(&self.functions, index, "function")
+    }
+
+    fn table(&self, index: u32) -> anyhow::Result<Id> {
+        Self::resolve(&self.tables, index, "table")
+    }
+
+    fn memory(&self, index: u32) -> anyhow::Result<Id> {
+        Self::resolve(&self.memories, index, "memory")
+    }
+
+    fn global(&self, index: u32) -> anyhow::Result<Id> {
+        Self::resolve(&self.globals, index, "global")
+    }
+}
+
 struct IndexedSection<'a>(usize, wasmparser::Payload<'a>);
 
 struct CodeSection<'a> {
@@ -580,7 +605,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                 let prev = cache.take();
                 match op? {
                     Operator::Call { function_index } => {
-                        let f_id = indices.functions[function_index as usize];
+                        let f_id = indices.function(function_index)?;
                         edges.push((body_id, f_id));
                     }
 
@@ -590,7 +615,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     Operator::CallIndirect { .. } => continue,
 
                     Operator::GlobalGet { global_index } | Operator::GlobalSet { global_index } => {
-                        let g_id = indices.globals[global_index as usize];
+                        let g_id = indices.global(global_index)?;
                         edges.push((body_id, g_id));
                     }
 
@@ -857,16 +882,16 @@ impl<'a> Parse<'a> for wasmparser::ExportSectionReader<'a> {
             let exp_id = Id::entry(idx, i);
             match exp.kind {
                 wasmparser::ExternalKind::Function => {
-                    items.add_edge(exp_id, indices.functions[exp.index as usize]);
+                    items.add_edge(exp_id, indices.function(exp.index)?);
                 }
                 wasmparser::ExternalKind::Table => {
-                    items.add_edge(exp_id, indices.tables[exp.index as usize]);
+                    items.add_edge(exp_id, indices.table(exp.index)?);
                 }
                 wasmparser::ExternalKind::Memory => {
-                    items.add_edge(exp_id, indices.memories[exp.index as usize]);
+                    items.add_edge(exp_id, indices.memory(exp.index)?);
                 }
                 wasmparser::ExternalKind::Global => {
-                    items.add_edge(exp_id, indices.globals[exp.index as usize]);
+                    items.add_edge(exp_id, indices.global(exp.index)?);
                 }
                 wasmparser::ExternalKind::Tag
                 | wasmparser::ExternalKind::Type
@@ -900,7 +925,7 @@ impl<'a> Parse<'a> for StartSection<'a> {
     ) -> anyhow::Result<()> {
         items.add_edge(
             Id::section(idx),
-            indices.functions[self.function_index as usize],
+            indices.function(self.function_index)?,
         );
         Ok(())
     }
@@ -932,7 +957,7 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
 
             match elem.kind {
                 wasmparser::ElementKind::Active { table_index, .. } => {
-                    items.add_edge(indices.tables[table_index as usize], elem_id);
+                    items.add_edge(indices.table(table_index)?, elem_id);
                 }
                 wasmparser::ElementKind::Declared => {}
                 wasmparser::ElementKind::Passive => {}
@@ -941,7 +966,7 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
                 let element_item = element_item?;
                 match element_item {
                     wasmparser::ElementItem::Func(func_idx) => {
-                        items.add_edge(elem_id, indices.functions[func_idx as usize]);
+                        items.add_edge(elem_id, indices.function(func_idx)?);
                     }
                     wasmparser::ElementItem::Null(_ty) => {}
                 }
-- 
2.43.0


From cf783d5348a3449eea8df7313a8e2310e10df80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 18/42] fix: functions of unknown types get references to items
 that do not exist

---
 parser/wasm_parse/mod.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index c1d52ff..ddbc988 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -7,7 +7,8 @@ use wasmparser::{self, Operator, SectionReader, Type};
 
 #[derive(Default)]
 pub struct SectionIndices {
-    type_: Option<usize>,
+    // Only function types have items of their own.
+    types: Option<Vec<Option<Id>>>,
     code: Option<usize>,
     functions: Vec<Id>,
     tables: Vec<Id>,
@@ -281,8 +282,16 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
         let mut indices = SectionIndices::default();
         for IndexedSection(idx, section) in sections.iter() {
             match section {
-                wasmparser::Payload::TypeSection(_reader) => {
-                    indices.type_ = Some(*idx);
+                wasmparser::Payload::TypeSection(reader) => {
+                    let types = indices.types.get_or_insert_with(Vec::new);
+                    for (i, ty) in reader.clone().into_iter().enumerate() {
+                        types.push(match ty? {
+                            wasmparser::TypeDef::Func(_) => Some(Id::entry(*idx, i)),
+                            wasmparser::TypeDef::Module(_) | wasmparser::TypeDef::Instance(_) => {
+                                None
+                            }
+                        });
+                    }
                 }
                 wasmparser::Payload::ImportSection(reader) => {
                     for (i, import) in reader.clone().into_iter().enumerate() {
@@ -586,8 +595,12 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
         // Function section reader parsing.
         for (func_i, type_ref) in iterate_with_size(&mut function_section.reader).enumerate() {
             let (type_ref, _) = type_ref?;
-            if let Some(type_idx) = indices.type_ {
-                let type_id = Id::entry(type_idx, type_ref as usize);
+            if let Some(types) = &indices.types {
+                let type_id = types
+                    .get(type_ref as usize)
+                    .cloned()
+                    .flatten()
+                    .ok_or_else(|| anyhow!("type index {} is not a function type", type_ref))?;
                 if let Some(code_idx) = indices.code {
                     let body_id = Id::entry(code_idx, func_i);
                     edges.push((body_id, type_id));
-- 
2.43.0


From 94832cbd495805ef7384df29a8ea0c7da7240eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:55 +0000
Subject: [PATCH 19/42] fix: truncated code sections panic

---
 parser/wasm_parse/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index ddbc988..9ea5249 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -96,12 +96,14 @@ impl<'a> ModuleReader<'a> {
         start_offset: usize,
         byte_range: wasmparser::Range,
     ) -> anyhow::Result<CodeSection<'a>> {
+        // The parser reports the code section before it has seen all of it.
+        let bytes = self
+            .data
+            .get(byte_range.start..byte_range.end)
+            .ok_or_else(|| anyhow!("wasm binary cannot be fully parsed"))?;
         Ok(CodeSection {
             index: index,
-            reader: wasmparser::CodeSectionReader::new(
-                &self.data[byte_range.start..byte_range.end],
-                byte_range.start,
-            )?,
+            reader: wasmparser::CodeSectionReader::new(bytes, byte_range.start)?,
             byte_size: byte_range.end - start_offset,
         })
     }
-- 
2.43.0


From 4c1c475eca7154c40ac47b0731488da83c2e5c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 20/42] fix: functions without a body are referenced but have
 no item

---
 parser/wasm_parse/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 9ea5249..db0629c 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -536,6 +536,12 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
     ) -> anyhow::Result<()> {
         let (func_section, code_section) = self;
 
+        if func_section.reader.get_count() != code_section.reader.get_count() {
+            return Err(anyhow!(
+                "function and code sections have different numbers of entries"
+            ));
+        }
+
         let func_section_index = func_section.index;
         let func_items: Vec<ir::Item> = iterate_with_size(&mut func_section.reader)
             .enumerate()
-- 
2.43.0


From 9528b348b01bd431276ddaf032ea272daa933946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 21/42] fix: a second function or code section replaces the
 first one

---
 parser/wasm_parse/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index db0629c..43a7bcd 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -139,9 +139,15 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
             let indexed_section = IndexedSection(idx, section);
             match indexed_section.1 {
                 wasmparser::Payload::CodeSectionStart { range, .. } => {
+                    if code_section.is_some() {
+                        return Err(anyhow!("more than one code section"));
+                    }
                     code_section = Some(self.new_code_section(idx, start, range)?);
                 }
                 wasmparser::Payload::FunctionSection(reader) => {
+                    if function_section.is_some() {
+                        return Err(anyhow!("more than one function section"));
+                    }
                     function_section = Some(FunctionSection {
                         index: idx,
                         byte_size: reader.range().end - start,
-- 
2.43.0


From ffd10918e7f67d098c9362836cee9027de4b0d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 22/42] fix: C++ symbols that cannot be demangled panic or
 exhaust memory

---
 ir/ir.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index 9e3df75..08e5239 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -9,6 +9,7 @@ use frozen::Frozen;
 use std::cmp;
 use std::collections::btree_map;
 use std::collections::{BTreeMap, BTreeSet};
+use std::fmt;
 use std::ops;
 use std::slice;
 use std::u32;
@@ -561,6 +562,22 @@ impl From<Misc> for ItemKind {
     }
 }
 
+/// The length limit, in bytes, for demangled C++ names.
+const MAX_DEMANGLED_LEN: usize = 1 << 16;
+
+/// A string that fails to grow beyond `MAX_DEMANGLED_LEN`.
+struct BoundedString(String);
+
+impl fmt::Write for BoundedString {
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        if self.0.len() + s.len() > MAX_DEMANGLED_LEN {
+            return Err(fmt::Error);
+        }
+        self.0.push_str(s);
+        Ok(())
+    }
+}
+
 /// Executable code. Function bodies.
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub struct Code {
@@ -617,11 +634,14 @@ impl Code {
             return Some(s.to_string());
         }
 
-        if let Ok(sym) = cpp_demangle::Symbol::new(s) {
-            return Some(sym.to_string());
-        }
-
-        None
+        // Not every symbol that can be parsed can be demangled, and
+        // substitutions can make the demangled name exponentially longer than
+        // the symbol.
+        let sym = cpp_demangle::Symbol::new(s).ok()?;
+        let mut demangled = BoundedString(String::new());
+        sym.structured_demangle(&mut demangled, &cpp_demangle::DemangleOptions::default())
+            .ok()?;
+        Some(demangled.0)
     }
 
     fn extract_generic_function(demangled: &str) -> Option<String> {
-- 
2.43.0


From ccdbdd967077465c0b8c03d6b9cd6c345445a89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 23/42] fix: the sum of the retained sizes overflows in top

---
 analyze/analyses/top.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/top.rs b/analyze/analyses/top.rs
index 65d7f04..8e23001 100644
--- a/analyze/analyses/top.rs
+++ b/analyze/analyses/top.rs
@@ -45,7 +45,8 @@ impl traits::Emit for Top {
         // Helper function used to summnarize a sequence of table rows. This is
         // used to generate the remaining summary and total rows. Returns a tuple
         // containing the total size, total size percentage, and number of items.
-        fn summarize_rows(rows: impl Iterator<Item = TableRow>) -> (u32, f64, u32) {
+        // Retained sizes overlap, so that their sum can exceed 32 bits.
+        fn summarize_rows(rows: impl Iterator<Item = TableRow>) -> (u64, f64, u32) {
             rows.fold(
                 (0, 0.0, 0),
                 |(total_size, total_percent, remaining_count),
@@ -53,7 +54,7 @@ impl traits::Emit for Top {
                      size, size_percent, ..
                  }| {
                     (
-                        total_size + size,
+                        total_size + u64::from(size),
                         total_percent + size_percent,
                         remaining_count + 1,
                     )
-- 
2.43.0


From 65cf1b68cefb4cf5ed4fd4849661077f071f65b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 24/42] fix: computing retained sizes overflows the stack on
 deep dominator trees

---
 ir/ir.rs | 52 ++++++++++++++++------------------------------------
 1 file changed, 16 insertions(+), 36 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index 08e5239..1c54d4b 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -291,44 +291,24 @@ impl Items {
         }
         self.compute_dominator_tree();
 
-        fn recursive_retained_size(
-            retained_sizes: &mut BTreeMap<Id, u32>,
-            items: &Items,
-            item: &Item,
-            dominator_tree: &BTreeMap<Id, Vec<Id>>,
-        ) -> u32 {
-            // Although the dominator tree cannot have cycles, because we
-            // compute retained sizes in item iteration order, rather than from
-            // the bottom of the dominator tree up, it is possible we have
-            // already computed the retained sizes for subtrees.
-            if let Some(rsize) = retained_sizes.get(&item.id()) {
-                return *rsize;
-            }
-
-            let mut rsize = item.size();
-            if let Some(children) = dominator_tree.get(&item.id()) {
-                for child in children {
-                    rsize += recursive_retained_size(
-                        retained_sizes,
-                        items,
-                        &items[*child],
-                        dominator_tree,
-                    );
-                }
-            }
-
-            let old_value = retained_sizes.insert(item.id(), rsize);
-            // The dominator tree is a proper tree, so there shouldn't be
-            // any cycles.
-            assert!(old_value.is_none());
-            rsize
-        }
-
-        let mut retained_sizes = BTreeMap::new();
+        // Accumulate the sizes from the bottom of the dominator tree up. The
+        // tree can be too deep for recursion.
+        let mut retained_sizes: BTreeMap<Id, u32> =
+            self.iter().map(|item| (item.id(), item.size())).collect();
         {
             let dominator_tree = self.dominator_tree.as_ref().unwrap();
-            for item in self.iter() {
-                recursive_retained_size(&mut retained_sizes, self, item, dominator_tree);
+            let mut order = vec![];
+            let mut stack = vec![(self.meta_root, self.meta_root)];
+            while let Some((parent, id)) = stack.pop() {
+                order.push((parent, id));
+                if let Some(children) = dominator_tree.get(&id) {
+                    stack.extend(children.iter().map(|child| (id, *child)));
+                }
+            }
+            // The first entry is the meta root, which has no parent.
+            for (parent, id) in order.into_iter().skip(1).rev() {
+                let rsize = retained_sizes[&id];
+                *retained_sizes.get_mut(&parent).unwrap() += rsize;
             }
         }
         self.retained_sizes = Some(retained_sizes);
-- 
2.43.0


From 9cc9b1c8b138b9febf8621ec966e70a3ff4f1c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 25/42] fix: dominators overflows the stack on deep dominator
 trees

---
 analyze/analyses/dominators/emit.rs | 132 ++++++++--------------------
 1 file changed, 36 insertions(+), 96 deletions(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 8955292..7325c56 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -13,6 +13,38 @@ use crate::analyses::dominators::DominatorTree;
 use crate::formats::json;
 use crate::formats::table::{Align, Table};
 
+impl DominatorTree {
+    /// The emitted items in order, each with its depth below the meta root.
+    ///
+    /// The dominator tree can be too deep for recursion.
+    fn rows(&self, items: &ir::Items) -> Vec<(u32, ir::Id)> {
+        let mut rows = vec![];
+        let mut count = 0;
+        for &start in &self.items {
+            let start_depth = if start == items.meta_root() { 0 } else { 1 };
+            let mut stack = vec![(start_depth, start)];
+            while let Some((depth, id)) = stack.pop() {
+                assert_eq!(id == items.meta_root(), depth == 0);
+
+                if count >= self.opts.max_rows() || depth > self.opts.max_depth() {
+                    continue;
+                }
+                if depth > 0 {
+                    count += 1;
+                }
+                rows.push((depth, id));
+
+                if let Some(children) = self.tree.get(&id) {
+                    let mut children = children.to_vec();
+                    children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
+                    stack.extend(children.into_iter().rev().map(|child| (depth + 1, child)));
+                }
+            }
+        }
+        rows
+    }
+}
+
 impl traits::Emit for DominatorTree {
     #[cfg(feature = "emit_text")]
     fn emit_text(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
@@ -22,59 +54,12 @@ impl traits::Emit for DominatorTree {
             (Align::Left, "Dominator Tree".to_string()),
         ]);
 
-        let opts = &self.opts;
-        let mut row = 0 as u32;
-
-        fn recursive_add_rows(
-            table: &mut Table,
-            items: &ir::Items,
-            dominator_tree: &BTreeMap<ir::Id, Vec<ir::Id>>,
-            depth: u32,
-            mut row: &mut u32,
-            opts: &opt::Dominators,
-            id: ir::Id,
-        ) {
-            assert_eq!(id == items.meta_root(), depth == 0);
-
-            if *row >= opts.max_rows() || depth > opts.max_depth() {
-                return;
-            }
-
+        for (depth, id) in self.rows(items) {
             if depth > 0 {
-                *row += 1;
-                add_text_item(items, depth, id, table);
-            }
-
-            if let Some(children) = dominator_tree.get(&id) {
-                let mut children = children.to_vec();
-                children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
-                for child in children {
-                    recursive_add_rows(
-                        table,
-                        items,
-                        dominator_tree,
-                        depth + 1,
-                        &mut row,
-                        &opts,
-                        child,
-                    );
-                }
+                add_text_item(items, depth, id, &mut table);
             }
         }
 
-        for id in &self.items {
-            let start_depth = if *id == items.meta_root() { 0 } else { 1 };
-            recursive_add_rows(
-                &mut table,
-                items,
-                &self.tree,
-                start_depth,
-                &mut row,
-                &opts,
-                *id,
-            );
-        }
-
         if let Some(UnreachableItemsSummary {
             count,
             size,
@@ -172,54 +157,9 @@ impl traits::Emit for DominatorTree {
 
     #[cfg(feature = "emit_csv")]
     fn emit_csv(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        fn recursive_add_children(
-            items: &ir::Items,
-            opts: &opt::Dominators,
-            dominator_tree: &BTreeMap<ir::Id, Vec<ir::Id>>,
-            depth: u32,
-            row: &mut u32,
-            id: ir::Id,
-            wtr: &mut csv::Writer<&mut dyn io::Write>,
-        ) -> anyhow::Result<()> {
-            if *row >= opts.max_rows() || depth > opts.max_depth() {
-                return Ok(());
-            }
-
-            if depth > 0 {
-                *row += 1;
-            }
-            add_csv_item(items, id, wtr)?;
-            if let Some(children) = dominator_tree.get(&id) {
-                let mut children = children.to_vec();
-                children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
-                for child in children {
-                    recursive_add_children(
-                        items,
-                        opts,
-                        dominator_tree,
-                        depth + 1,
-                        row,
-                        child,
-                        wtr,
-                    )?;
-                }
-            }
-            Ok(())
-        }
-
         let mut wtr = csv::Writer::from_writer(dest);
-        let mut row = 0;
-        for id in &self.items {
-            let start_depth = if *id == items.meta_root() { 0 } else { 1 };
-            recursive_add_children(
-                items,
-                &self.opts,
-                &self.tree,
-                start_depth,
-                &mut row,
-                *id,
-                &mut wtr,
-            )?;
+        for (_, id) in self.rows(items) {
+            add_csv_item(items, id, &mut wtr)?;
         }
 
         if let Some(UnreachableItemsSummary {
-- 
2.43.0


From ef2db43a1a47a52d80ac501c5e3c2f00192f687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 26/42] fix: resolve address and range list indices of DWARF 5

Since version 5, DW_AT_low_pc, DW_AT_high_pc and DW_AT_ranges can be
given as indices into .debug_addr and .debug_rnglists. This is what clang
emits by default, and twiggy refused every such file.
---
 .../object_parse/die_parse/location_attrs.rs  | 53 ++++++++++++-------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/parser/object_parse/die_parse/location_attrs.rs b/parser/object_parse/die_parse/location_attrs.rs
index d66bfba..c8d9baf 100644
--- a/parser/object_parse/die_parse/location_attrs.rs
+++ b/parser/object_parse/die_parse/location_attrs.rs
@@ -36,7 +36,7 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
         dwarf: &gimli::Dwarf<R>,
         unit: &gimli::Unit<R>,
     ) -> FallilbleOption<u64> {
-        if let Some(size) = self.contiguous_entity_size()? {
+        if let Some(size) = self.contiguous_entity_size(dwarf, unit)? {
             Ok(Some(size))
         } else if let Some(size) = self.noncontiguous_entity_size(dwarf, unit)? {
             Ok(Some(size))
@@ -47,19 +47,25 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
 
     /// Compute the size of an entity occupying a contiguous range of machine
     /// code addresses in the binary.
-    fn contiguous_entity_size(&self) -> FallilbleOption<u64> {
-        let dw_at_low_pc: Option<u64> = self.dw_at_low_pc()?;
+    fn contiguous_entity_size(
+        &self,
+        dwarf: &gimli::Dwarf<R>,
+        unit: &gimli::Unit<R>,
+    ) -> FallilbleOption<u64> {
+        let dw_at_low_pc: Option<u64> = self.dw_at_low_pc(dwarf, unit)?;
         match (dw_at_low_pc, &self.dw_at_high_pc) {
-            // If DW_AT_high_pc is encoded as an address, return the difference
-            // between that value and the DW_AT_low_pc address.
-            (Some(low_pc), Some(gimli::AttributeValue::Addr(high_pc))) => {
-                Ok(Some(high_pc - low_pc))
-            }
             // DWARF 4 allows the DW_AT_high_pc to be encoded as an offset from the
             // address in DW_AT_low_pc. If so, return the offset as the contiguous size.
             (Some(_), Some(gimli::AttributeValue::Udata(offset))) => Ok(Some(*offset)),
-            // Return an error if DW_AT_high_pc is not encoded as expected.
-            (Some(_), Some(_)) => Err(anyhow!("Unexpected DW_AT_high_pc attribute value")),
+            // If DW_AT_high_pc is encoded as an address, return the difference
+            // between that value and the DW_AT_low_pc address. Return an error
+            // if it is not encoded as expected.
+            (Some(low_pc), Some(high_pc)) => {
+                match dwarf.attr_address(unit, high_pc.clone())? {
+                    Some(high_pc) => Ok(Some(high_pc - low_pc)),
+                    None => Err(anyhow!("Unexpected DW_AT_high_pc attribute value")),
+                }
+            }
             // If none of the above conditions were met, this is either a
             // noncontiguous entity, or the DIE does not represent a definition.
             _ => Ok(None),
@@ -73,8 +79,7 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
         dwarf: &gimli::Dwarf<R>,
         unit: &gimli::Unit<R>,
     ) -> FallilbleOption<u64> {
-        if let Some(raw_offset) = self.dw_at_ranges()? {
-            let offset = dwarf.ranges_offset_from_raw(unit, raw_offset);
+        if let Some(offset) = self.dw_at_ranges(dwarf, unit)? {
             let ranges = dwarf.ranges(unit, offset)?;
             let size = ranges
                 .map(|r| Ok(r.end - r.begin))
@@ -86,22 +91,30 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
     }
 
     /// Return the DW_AT_low_pc attribute as a u64 value representing an address.
-    fn dw_at_low_pc(&self) -> FallilbleOption<u64> {
+    /// Since DWARF 5 it can be encoded as an index into the `.debug_addr` section.
+    fn dw_at_low_pc(&self, dwarf: &gimli::Dwarf<R>, unit: &gimli::Unit<R>) -> FallilbleOption<u64> {
         match &self.dw_at_low_pc {
-            Some(gimli::AttributeValue::Addr(address)) => Ok(Some(*address)),
-            Some(_) => Err(anyhow!("Unexpected base address attribute value",)),
+            Some(attr) => match dwarf.attr_address(unit, attr.clone())? {
+                Some(address) => Ok(Some(address)),
+                None => Err(anyhow!("Unexpected base address attribute value",)),
+            },
             None => Ok(None),
         }
     }
 
-    /// Return the DW_AT_ranges attribute as a u64 value representing an offset
-    /// into the `.debug_ranges` section of the file.
+    /// Return the DW_AT_ranges attribute as an offset into the `.debug_ranges`
+    /// or `.debug_rnglists` section of the file. Since DWARF 5 it can be encoded
+    /// as an index into the latter.
     fn dw_at_ranges(
         &self,
-    ) -> FallilbleOption<gimli::RawRangeListsOffset<<R as gimli::Reader>::Offset>> {
+        dwarf: &gimli::Dwarf<R>,
+        unit: &gimli::Unit<R>,
+    ) -> FallilbleOption<gimli::RangeListsOffset<<R as gimli::Reader>::Offset>> {
         match &self.dw_at_ranges {
-            Some(gimli::AttributeValue::RangeListsRef(offset)) => Ok(Some(*offset)),
-            Some(_) => Err(anyhow!("Unexpected DW_AT_ranges value")),
+            Some(attr) => match dwarf.attr_ranges_offset(unit, attr.clone())? {
+                Some(offset) => Ok(Some(offset)),
+                None => Err(anyhow!("Unexpected DW_AT_ranges value")),
+            },
             None => Ok(None),
         }
     }
-- 
2.43.0


From 25d967b0c577af27d506867d230c0bdf70c6dcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 27/42] fix: refuse DWARF ranges that are reversed or too large

---
 parser/object_parse/die_parse/location_attrs.rs | 7 +++++--
 parser/object_parse/die_parse/mod.rs            | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser/object_parse/die_parse/location_attrs.rs b/parser/object_parse/die_parse/location_attrs.rs
index c8d9baf..3bacec8 100644
--- a/parser/object_parse/die_parse/location_attrs.rs
+++ b/parser/object_parse/die_parse/location_attrs.rs
@@ -62,7 +62,10 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
             // if it is not encoded as expected.
             (Some(low_pc), Some(high_pc)) => {
                 match dwarf.attr_address(unit, high_pc.clone())? {
-                    Some(high_pc) => Ok(Some(high_pc - low_pc)),
+                    Some(high_pc) => match high_pc.checked_sub(low_pc) {
+                        Some(size) => Ok(Some(size)),
+                        None => Err(anyhow!("DW_AT_high_pc is less than DW_AT_low_pc")),
+                    },
                     None => Err(anyhow!("Unexpected DW_AT_high_pc attribute value")),
                 }
             }
@@ -83,7 +86,7 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
             let ranges = dwarf.ranges(unit, offset)?;
             let size = ranges
                 .map(|r| Ok(r.end - r.begin))
-                .fold(0, |res, size| Ok(res + size))?;
+                .fold(0, |res: u64, size| Ok(res.saturating_add(size)))?;
             Ok(Some(size))
         } else {
             Ok(None)
diff --git a/parser/object_parse/die_parse/mod.rs b/parser/object_parse/die_parse/mod.rs
index ef40092..73e69f8 100644
--- a/parser/object_parse/die_parse/mod.rs
+++ b/parser/object_parse/die_parse/mod.rs
@@ -1,4 +1,6 @@
+use anyhow::anyhow;
 use gimli;
+use std::convert::TryFrom;
 use twiggy_ir as ir;
 mod item_name;
 mod location_attrs;
@@ -21,11 +23,13 @@ pub(super) fn parse_items<R: gimli::Reader>(
     let item: ir::Item = match entry.tag() {
         gimli::DW_TAG_subprogram => {
             if let Some(size) = DieLocationAttributes::try_from(entry)?.entity_size(dwarf, unit)? {
+                let size = u32::try_from(size)
+                    .map_err(|_| anyhow!("Subprogram is too large: {} bytes", size))?;
                 let id = ir::Id::entry(unit_id, entry_id);
                 let name = item_name(entry, dwarf, unit)?
                     .unwrap_or_else(|| format!("Subroutine[{}][{}]", unit_id, entry_id));
                 let kind: ir::ItemKind = ir::Code::new(&name).into();
-                ir::Item::new(id, &name, size as u32, kind)
+                ir::Item::new(id, &name, size, kind)
             } else {
                 return Ok(());
             }
-- 
2.43.0


From 61b9ae54ad1cb3d5fcca9267f8d571e5fc6ff73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:48 +0000
Subject: [PATCH 28/42] fix: dominators' JSON output overflows the stack on
 deep dominator trees

---
 analyze/analyses/dominators/emit.rs | 89 +++++++++--------------------
 analyze/formats/json.rs             | 41 +++++++++++++
 2 files changed, 67 insertions(+), 63 deletions(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 7325c56..4cd51cf 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -1,11 +1,9 @@
-use std::collections::BTreeMap;
 use std::io;
 
 use csv;
 use serde_derive::Serialize;
 
 use twiggy_ir as ir;
-use twiggy_opt as opt;
 use twiggy_traits as traits;
 
 use super::UnreachableItemsSummary;
@@ -14,16 +12,17 @@ use crate::formats::json;
 use crate::formats::table::{Align, Table};
 
 impl DominatorTree {
-    /// The emitted items in order, each with its depth below the meta root.
+    /// The emitted items in order, each with whether it is one of the starting
+    /// positions, and its depth below the meta root.
     ///
     /// The dominator tree can be too deep for recursion.
-    fn rows(&self, items: &ir::Items) -> Vec<(u32, ir::Id)> {
+    fn rows(&self, items: &ir::Items) -> Vec<(bool, u32, ir::Id)> {
         let mut rows = vec![];
         let mut count = 0;
         for &start in &self.items {
             let start_depth = if start == items.meta_root() { 0 } else { 1 };
-            let mut stack = vec![(start_depth, start)];
-            while let Some((depth, id)) = stack.pop() {
+            let mut stack = vec![(true, start_depth, start)];
+            while let Some((is_start, depth, id)) = stack.pop() {
                 assert_eq!(id == items.meta_root(), depth == 0);
 
                 if count >= self.opts.max_rows() || depth > self.opts.max_depth() {
@@ -32,12 +31,17 @@ impl DominatorTree {
                 if depth > 0 {
                     count += 1;
                 }
-                rows.push((depth, id));
+                rows.push((is_start, depth, id));
 
                 if let Some(children) = self.tree.get(&id) {
                     let mut children = children.to_vec();
                     children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
-                    stack.extend(children.into_iter().rev().map(|child| (depth + 1, child)));
+                    stack.extend(
+                        children
+                            .into_iter()
+                            .rev()
+                            .map(|child| (false, depth + 1, child)),
+                    );
                 }
             }
         }
@@ -54,7 +58,7 @@ impl traits::Emit for DominatorTree {
             (Align::Left, "Dominator Tree".to_string()),
         ]);
 
-        for (depth, id) in self.rows(items) {
+        for (_, depth, id) in self.rows(items) {
             if depth > 0 {
                 add_text_item(items, depth, id, &mut table);
             }
@@ -79,63 +83,22 @@ impl traits::Emit for DominatorTree {
 
     #[cfg(feature = "emit_json")]
     fn emit_json(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        fn recursive_add_children(
-            items: &ir::Items,
-            opts: &opt::Dominators,
-            dominator_tree: &BTreeMap<ir::Id, Vec<ir::Id>>,
-            depth: u32,
-            row: &mut u32,
-            id: ir::Id,
-            arr: &mut json::Array,
-        ) -> anyhow::Result<()> {
-            if *row >= opts.max_rows() || depth > opts.max_depth() {
-                return Ok(());
-            }
-
-            if depth > 0 {
-                *row += 1;
-            }
-            let mut obj = arr.object()?;
-            add_json_item(items, id, &mut obj)?;
-
-            if let Some(children) = dominator_tree.get(&id) {
-                let mut children = children.to_vec();
-                children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
-
-                let mut arr = obj.array("children")?;
-                for child in children {
-                    recursive_add_children(
-                        items,
-                        opts,
-                        dominator_tree,
-                        depth + 1,
-                        row,
-                        child,
-                        &mut arr,
-                    )?;
-                }
-            }
-
-            Ok(())
-        }
-
         // Scoping the borrow of `arr` so we can get another object in the next block
         let mut obj = json::object(dest)?;
         {
             let mut arr = obj.array("items")?;
-            let mut row = 0;
-            for curr_id in &self.items {
-                let start_depth = if *curr_id == items.meta_root() { 0 } else { 1 };
-                recursive_add_children(
-                    items,
-                    &self.opts,
-                    &self.tree,
-                    start_depth,
-                    &mut row,
-                    *curr_id,
-                    &mut arr,
-                )?;
-            }
+            // Each start begins a new tree.
+            let mut first_depth = 0;
+            let nodes = self.rows(items).into_iter().map(|(is_start, depth, id)| {
+                if is_start {
+                    first_depth = depth;
+                }
+                ((depth - first_depth) as usize, id)
+            });
+            arr.nested_objects("children", nodes, |id, obj| {
+                add_json_item(items, id, obj)?;
+                Ok(self.tree.contains_key(&id))
+            })?;
         }
 
         if let Some(UnreachableItemsSummary {
@@ -158,7 +121,7 @@ impl traits::Emit for DominatorTree {
     #[cfg(feature = "emit_csv")]
     fn emit_csv(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
         let mut wtr = csv::Writer::from_writer(dest);
-        for (_, id) in self.rows(items) {
+        for (_, _, id) in self.rows(items) {
             add_csv_item(items, id, &mut wtr)?;
         }
 
diff --git a/analyze/formats/json.rs b/analyze/formats/json.rs
index b7d7ea9..bfd95a5 100644
--- a/analyze/formats/json.rs
+++ b/analyze/formats/json.rs
@@ -3,6 +3,7 @@
 #![allow(dead_code)]
 
 use std::io;
+use std::mem;
 
 pub trait JsonPrimitive {
     fn json_primitive(&self, w: &mut dyn io::Write) -> io::Result<()>;
@@ -81,6 +82,46 @@ impl<'a> Array<'a> {
         array(&mut *self.w)
     }
 
+    /// Append objects that are nested in each other through an array field.
+    ///
+    /// The nodes come in preorder, each with its level. `fields` adds the fields
+    /// of a node's object, and returns whether the object gets the array as its
+    /// last field. This does not recurse, because the nesting can be too deep
+    /// for that.
+    pub fn nested_objects<T>(
+        &mut self,
+        array_name: &str,
+        nodes: impl IntoIterator<Item = (usize, T)>,
+        mut fields: impl FnMut(T, &mut Object) -> anyhow::Result<bool>,
+    ) -> anyhow::Result<()> {
+        let end = |has_array| if has_array { "]}" } else { "}" };
+
+        // Whether the objects that are still open have the array.
+        let mut open = vec![];
+        for (level, node) in nodes {
+            while open.len() > level {
+                write!(self.w, "{}", end(open.pop().unwrap()))?;
+                self.need_comma = true;
+            }
+            assert_eq!(open.len(), level);
+
+            let mut obj = self.object()?;
+            let has_array = fields(node, &mut obj)?;
+            if has_array {
+                obj.comma_and_name(array_name)?;
+                write!(obj.w, "[")?;
+            }
+            mem::forget(obj);
+            open.push(has_array);
+            self.need_comma = false;
+        }
+        while let Some(has_array) = open.pop() {
+            write!(self.w, "{}", end(has_array))?;
+            self.need_comma = true;
+        }
+        Ok(())
+    }
+
     pub fn elem<P>(&mut self, elem: P) -> io::Result<()>
     where
         P: JsonPrimitive,
-- 
2.43.0


From 67ad5b5374924e177f6aaa8f856ceffc19310025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:10 +0000
Subject: [PATCH 29/42] fix: paths overflows the stack on long paths

---
 analyze/analyses/paths/mod.rs         | 128 ++++++++++++------------
 analyze/analyses/paths/paths_emit.rs  | 138 ++++++--------------------
 analyze/analyses/paths/paths_entry.rs |  26 +----
 3 files changed, 100 insertions(+), 192 deletions(-)

diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index 8a44855..2dc635b 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -1,4 +1,5 @@
 use std::collections::BTreeSet;
+use std::vec;
 
 use regex;
 
@@ -27,10 +28,10 @@ pub fn paths(items: &mut ir::Items, opts: &opt::Paths) -> anyhow::Result<Box<dyn
 
     // Initialize the collection of Id values whose retaining paths we will emit.
     let opts = opts.clone();
-    let entries = get_starting_positions(items, &opts)?
-        .iter()
-        .map(|id| create_entry(*id, items, &opts, 0, &mut BTreeSet::new()))
-        .collect();
+    let mut entries = vec![];
+    for id in get_starting_positions(items, &opts)? {
+        add_entries(id, items, &opts, &mut entries);
+    }
 
     let paths = Paths { opts, entries };
 
@@ -98,67 +99,72 @@ fn get_starting_positions(items: &ir::Items, opts: &opt::Paths) -> anyhow::Resul
     Ok(res)
 }
 
-/// Create a `PathsEntry` object for the given item.
+/// Add the entries of all paths that start at the given item, in preorder.
 ///
 /// Only the part of the tree that will be emitted is expanded: entries beyond
-/// the maximum depth or the maximum number of paths have no children. The
-/// number of paths in the whole graph can be exponential in its size.
-fn create_entry(
-    id: ir::Id,
-    items: &ir::Items,
-    opts: &opt::Paths,
-    depth: u32,
-    seen: &mut BTreeSet<ir::Id>,
-) -> PathsEntry {
-    // Determine the item's name and size.
-    let item = &items[id];
-    let name = item.name().to_string();
-    let size = item.size();
-
-    // Temporarily add the current item to the set of discovered nodes, so that
-    // neither it nor any of its ancestors is visited again.
-    seen.insert(id);
-
-    // Collect the `ir::Id` values of this entry's children, depending on
-    // whether we are ascending or descending the IR-tree.
-    let children_ids: Vec<ir::Id> = if opts.descending() {
-        items
-            .neighbors(id)
-            .map(|id| id as ir::Id)
-            .filter(|id| !seen.contains(id))
-            .filter(|&id| id != items.meta_root())
-            .collect()
-    } else {
-        items
-            .predecessors(id)
-            .map(|id| id as ir::Id)
-            .filter(|id| !seen.contains(id))
-            .filter(|&id| id != items.meta_root())
-            .collect()
-    };
-
-    // Create an entry for each child. Collect these into a `children` vector.
-    let max_paths = opts.max_paths() as usize;
-    let children = children_ids
-        .into_iter()
-        .enumerate()
-        .map(|(i, id)| {
-            if depth < opts.max_depth() && i < max_paths {
-                create_entry(id, items, opts, depth + 1, seen)
+/// the maximum depth or the maximum number of paths are not visited. The
+/// number of paths in the whole graph can be exponential in its size, and the
+/// paths can be too long for recursion.
+fn add_entries(start: ir::Id, items: &ir::Items, opts: &opt::Paths, entries: &mut Vec<PathsEntry>) {
+    // The current path, each item with its children that are not visited yet.
+    let mut path: Vec<(ir::Id, vec::IntoIter<ir::Id>)> = vec![];
+
+    // The items on the current path are not visited again.
+    let mut seen = BTreeSet::new();
+
+    let mut next = Some(start);
+    loop {
+        if let Some(id) = next {
+            seen.insert(id);
+
+            // Collect the `ir::Id` values of this entry's children, depending on
+            // whether we are ascending or descending the IR-tree.
+            let mut children_ids: Vec<ir::Id> = if opts.descending() {
+                items
+                    .neighbors(id)
+                    .map(|id| id as ir::Id)
+                    .filter(|id| !seen.contains(id))
+                    .filter(|&id| id != items.meta_root())
+                    .collect()
+            } else {
+                items
+                    .predecessors(id)
+                    .map(|id| id as ir::Id)
+                    .filter(|id| !seen.contains(id))
+                    .filter(|&id| id != items.meta_root())
+                    .collect()
+            };
+
+            let item = &items[id];
+            let depth = path.len() as u32;
+            entries.push(PathsEntry {
+                depth,
+                name: item.name().to_string(),
+                size: item.size(),
+                children: children_ids
+                    .iter()
+                    .map(|&id| items[id].name().to_string())
+                    .collect(),
+            });
+
+            let max_children = if depth < opts.max_depth() {
+                opts.max_paths() as usize
             } else {
-                PathsEntry {
-                    name: items[id].name().to_string(),
-                    size: items[id].size(),
-                    children: vec![],
+                0
+            };
+            children_ids.truncate(max_children);
+            path.push((id, children_ids.into_iter()));
+        }
+
+        match path.last_mut() {
+            None => return,
+            Some((id, children)) => {
+                next = children.next();
+                if next.is_none() {
+                    seen.remove(id);
+                    path.pop();
                 }
             }
-        })
-        .collect();
-    seen.remove(&id);
-
-    PathsEntry {
-        name,
-        size,
-        children,
+        }
     }
 }
diff --git a/analyze/analyses/paths/paths_emit.rs b/analyze/analyses/paths/paths_emit.rs
index 4d4b378..5f9e1e8 100644
--- a/analyze/analyses/paths/paths_emit.rs
+++ b/analyze/analyses/paths/paths_emit.rs
@@ -13,15 +13,13 @@ impl traits::Emit for Paths {
     fn emit_text(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
         use self::emit_text_helpers::{process_entry, TableRow};
 
-        // Flat map each entry and its children into a sequence of table rows.
+        // Map each entry into a table row.
         // Convert these `TableRow` objects into vectors of strings, and add
         // each of these to the table before writing the table to `dest`.
         let table = self
             .entries
             .iter()
-            .flat_map(|entry| {
-                process_entry(entry, 0, self.opts.max_paths() as usize, items, &self.opts)
-            })
+            .map(|entry| process_entry(entry, items, &self.opts))
             .map(
                 |TableRow {
                      size,
@@ -59,19 +57,13 @@ impl traits::Emit for Paths {
         use self::emit_json_helpers::process_entry;
 
         // Initialize a JSON array. For each path entry, add a object to the
-        // array, and add that entry's information to the new JSON object.
+        // array, or to the array of callers of the entry it belongs to.
         let mut arr = json::array(dest)?;
-        for entry in &self.entries {
-            let mut obj = arr.object()?;
-            process_entry(
-                entry,
-                &mut obj,
-                0,
-                self.opts.max_paths() as usize,
-                items,
-                &self.opts,
-            )?;
-        }
+        let nodes = self.entries.iter().map(|e| (e.depth as usize, e));
+        arr.nested_objects("callers", nodes, |entry, obj| {
+            process_entry(entry, obj, items)?;
+            Ok(true)
+        })?;
 
         Ok(())
     }
@@ -80,13 +72,12 @@ impl traits::Emit for Paths {
     fn emit_csv(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
         use self::emit_csv_helpers::process_entry;
 
-        // First, initialize a CSV writer. Then, flat map each entry and its
-        // children into a sequence of `CsvRecord` objects. Send each record
-        // to the CSV writer to be serialized.
+        // First, initialize a CSV writer. Then, map each entry into a
+        // `CsvRecord` object. Send each record to the CSV writer to be
+        // serialized.
         let mut wtr = csv::Writer::from_writer(dest);
-        for record in self.entries.iter().flat_map(|entry| {
-            process_entry(entry, 0, self.opts.max_paths() as usize, items, &self.opts)
-        }) {
+        for entry in &self.entries {
+            let record = process_entry(entry, items);
             wtr.serialize(record)?;
             wtr.flush()?;
         }
@@ -112,18 +103,11 @@ mod emit_text_helpers {
         pub name: String,
     }
 
-    /// Process a given path entry, and return an iterator of table rows,
-    /// representing its related call paths, according to the given options.
-    pub(super) fn process_entry<'a>(
-        entry: &'a PathsEntry,
-        depth: u32,
-        paths: usize,
-        items: &'a Items,
-        opts: &'a Paths,
-    ) -> Box<dyn Iterator<Item = TableRow> + 'a> {
-        // Get the row's name and size columns using the current depth.
-        let name = get_indented_name(&entry.name, depth, opts.descending());
-        let (size, size_percent) = if depth == 0 {
+    /// Process a given path entry, and return its table row.
+    pub(super) fn process_entry(entry: &PathsEntry, items: &Items, opts: &Paths) -> TableRow {
+        // Get the row's name and size columns using the entry's depth.
+        let name = get_indented_name(&entry.name, entry.depth, opts.descending());
+        let (size, size_percent) = if entry.depth == 0 {
             (
                 Some(entry.size),
                 Some(f64::from(entry.size) / f64::from(items.size()) * 100.0),
@@ -132,29 +116,10 @@ mod emit_text_helpers {
             (None, None)
         };
 
-        // Create an iterator containing the current entry's table row.
-        let row_iter = iter::once(TableRow {
+        TableRow {
             size,
             size_percent,
             name,
-        });
-
-        if depth < opts.max_depth() {
-            // Process each child entry, and chain together the resulting iterators.
-            let children_iter = entry
-                .children
-                .iter()
-                .take(paths)
-                .flat_map(move |child_entry| {
-                    process_entry(child_entry, depth + 1, paths, items, opts)
-                });
-            Box::new(row_iter.chain(children_iter))
-        } else if depth == opts.max_depth() {
-            // TODO: Create a summary row, and chain it to the row iterator.
-            Box::new(row_iter)
-        } else {
-            // If we are beyond the maximum depth, return an empty iterator.
-            Box::new(iter::empty())
         }
     }
 
@@ -189,35 +154,19 @@ mod emit_json_helpers {
     use crate::formats::json::Object;
     use std::io;
     use twiggy_ir::Items;
-    use twiggy_opt::Paths;
 
     // Process a paths entry, by adding its name and size to the given JSON object.
     pub(super) fn process_entry(
         entry: &PathsEntry,
         obj: &mut Object,
-        depth: u32,
-        paths: usize,
         items: &Items,
-        opts: &Paths,
     ) -> io::Result<()> {
-        let PathsEntry {
-            name,
-            size,
-            children,
-        } = entry;
+        let PathsEntry { name, size, .. } = entry;
         obj.field("name", name.as_str())?;
         obj.field("shallow_size", *size)?;
         let size_percent = f64::from(*size) / f64::from(items.size()) * 100.0;
         obj.field("shallow_size_percent", size_percent)?;
 
-        let mut callers = obj.array("callers")?;
-        if depth < opts.max_depth() {
-            for child in children.iter().take(paths) {
-                let mut obj = callers.object()?;
-                process_entry(child, &mut obj, depth + 1, paths, items, opts)?;
-            }
-        }
-
         Ok(())
     }
 }
@@ -230,7 +179,6 @@ mod emit_csv_helpers {
     use serde_derive::Serialize;
     use std::iter;
     use twiggy_ir::Items;
-    use twiggy_opt::Paths;
 
     /// This structure represents a row in the CSV output.
     #[derive(Serialize, Debug)]
@@ -242,43 +190,13 @@ mod emit_csv_helpers {
         pub path: Option<String>,
     }
 
-    // Process a given entry and its children, returning an iterator of CSV records.
-    pub(super) fn process_entry<'a>(
-        entry: &'a PathsEntry,
-        depth: u32,
-        paths: usize,
-        items: &'a Items,
-        opts: &'a Paths,
-    ) -> Box<dyn Iterator<Item = CsvRecord> + 'a> {
-        let name = entry.name.clone();
-        let shallow_size = entry.size;
-        let shallow_size_percent = f64::from(entry.size) / f64::from(items.size()) * 100.0;
-        let path = get_path(entry);
-
-        // Create an iterator containing the current entry's CSV record.
-        let record_iter = iter::once(CsvRecord {
-            name,
-            shallow_size,
-            shallow_size_percent,
-            path,
-        });
-
-        if depth < opts.max_depth() {
-            // Process each child entry, and chain together the resulting iterators.
-            let children_iter = entry
-                .children
-                .iter()
-                .take(paths)
-                .flat_map(move |child_entry| {
-                    process_entry(child_entry, depth + 1, paths, items, opts)
-                });
-            Box::new(record_iter.chain(children_iter))
-        } else if depth == opts.max_depth() {
-            // Create a summary row, and chain it to the row iterator.
-            Box::new(record_iter)
-        } else {
-            // If we are beyond the maximum depth, return an empty iterator.
-            Box::new(iter::empty())
+    // Process a given entry, returning its CSV record.
+    pub(super) fn process_entry(entry: &PathsEntry, items: &Items) -> CsvRecord {
+        CsvRecord {
+            name: entry.name.clone(),
+            shallow_size: entry.size,
+            shallow_size_percent: f64::from(entry.size) / f64::from(items.size()) * 100.0,
+            path: get_path(entry),
         }
     }
 
@@ -291,7 +209,7 @@ mod emit_csv_helpers {
                 entry
                     .children
                     .iter()
-                    .map(|child| child.name.as_str())
+                    .map(|child| child.as_str())
                     .chain(iter::once(entry.name.as_str()))
                     .collect::<Vec<_>>()
                     .join(" -> "),
diff --git a/analyze/analyses/paths/paths_entry.rs b/analyze/analyses/paths/paths_entry.rs
index 5c86158..2b912e4 100644
--- a/analyze/analyses/paths/paths_entry.rs
+++ b/analyze/analyses/paths/paths_entry.rs
@@ -1,26 +1,10 @@
-use std::cmp;
-
+/// An item on a path, at the given depth below the start of the path. Its
+/// children that are emitted follow it.
 #[derive(Debug, PartialEq, Eq)]
 pub(super) struct PathsEntry {
+    pub depth: u32,
     pub name: String,
     pub size: u32,
-    pub children: Vec<PathsEntry>,
-}
-
-impl PathsEntry {
-    pub fn _count(&self) -> u32 {
-        1 + self.children.iter().map(|c| c._count()).sum::<u32>()
-    }
-}
-
-impl PartialOrd for PathsEntry {
-    fn partial_cmp(&self, rhs: &Self) -> Option<cmp::Ordering> {
-        Some(self.cmp(rhs))
-    }
-}
-
-impl Ord for PathsEntry {
-    fn cmp(&self, rhs: &Self) -> cmp::Ordering {
-        rhs.size.cmp(&self.size).then(self.name.cmp(&rhs.name))
-    }
+    /// The names of all of its children, emitted or not.
+    pub children: Vec<String>,
 }
-- 
2.43.0


From 465f5799f6cb556eeebd07905876663eed2693ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:29 +0000
Subject: [PATCH 30/42] fix: modules without functions of their own are refused

---
 parser/wasm_parse/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 43a7bcd..3b0647c 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -177,6 +177,9 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
         match (function_section, code_section) {
             (Some(function_section), Some(code_section)) => (function_section, code_section)
                 .parse_items(items, (imported_functions, &names.function_names))?,
+            // A module without any functions of its own. An empty file is not
+            // a module.
+            (None, None) if !sections.is_empty() => {}
             _ => Err(anyhow!("function or code section is missing",))?,
         };
 
@@ -364,6 +367,7 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
             (Some(function_section), Some(code_section)) => {
                 (function_section, code_section).parse_edges(items, &indices)?
             }
+            (None, None) => {}
             _ => panic!("function or code section is missing"),
         };
         for IndexedSection(idx, section) in sections.into_iter() {
-- 
2.43.0


From cfff0821982a69aa3419b87d6e972da4642cb3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 31/42] fix: object file sections that lie outside of the file
 panic

---
 parser/object_parse/mod.rs | 53 +++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index 96800f1..f45a849 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -1,7 +1,7 @@
 use anyhow::anyhow;
 use fallible_iterator::FallibleIterator;
 use gimli;
-use object::{self, Object};
+use object::{self, Object, ObjectSection};
 use std::borrow::{Borrow, Cow};
 use twiggy_ir as ir;
 use typed_arena::Arena;
@@ -13,19 +13,41 @@ mod die_parse;
 fn load_section<'a, 'file, 'input, Sect, Endian>(
     arena: &'a Arena<Cow<'file, [u8]>>,
     file: &'file object::File<'input>,
+    file_size: usize,
     endian: Endian,
-) -> Sect
+) -> anyhow::Result<Sect>
 where
     Sect: gimli::Section<gimli::EndianSlice<'a, Endian>>,
     Endian: gimli::Endianity,
     'file: 'input,
     'a: 'file,
 {
-    let data = file
-        .section_data_by_name(Sect::section_name())
-        .unwrap_or(Cow::Borrowed(&[]));
+    let data = match file.section_by_name(Sect::section_name()) {
+        Some(section) => {
+            check_section(&section, file_size)?;
+            section.uncompressed_data()
+        }
+        None => Cow::Borrowed(&[][..]),
+    };
     let data_ref = (*arena.alloc(data)).borrow();
-    Sect::from(gimli::EndianSlice::new(data_ref, endian))
+    Ok(Sect::from(gimli::EndianSlice::new(data_ref, endian)))
+}
+
+// Helper function used to check that a section lies within the file. Reading
+// its contents would panic otherwise.
+fn check_section(section: &object::Section, file_size: usize) -> anyhow::Result<()> {
+    if let Some((offset, size)) = section.file_range() {
+        if offset
+            .checked_add(size)
+            .map_or(true, |end| end > file_size as u64)
+        {
+            return Err(anyhow!(
+                "Section {} lies outside of the file",
+                section.name().unwrap_or("?")
+            ));
+        }
+    }
+    Ok(())
 }
 
 pub fn parse(items: &mut ir::ItemsBuilder, data: &[u8]) -> anyhow::Result<()> {
@@ -41,15 +63,16 @@ pub fn parse(items: &mut ir::ItemsBuilder, data: &[u8]) -> anyhow::Result<()> {
     };
 
     // Load the sections of the file containing debugging information.
-    let debug_abbrev: gimli::DebugAbbrev<_> = load_section(&arena, &file, endian);
-    let debug_addr: gimli::DebugAddr<_> = load_section(&arena, &file, endian);
-    let debug_info: gimli::DebugInfo<_> = load_section(&arena, &file, endian);
-    let debug_line: gimli::DebugLine<_> = load_section(&arena, &file, endian);
-    let debug_line_str: gimli::DebugLineStr<_> = load_section(&arena, &file, endian);
-    let debug_str: gimli::DebugStr<_> = load_section(&arena, &file, endian);
-    let debug_str_offsets: gimli::DebugStrOffsets<_> = load_section(&arena, &file, endian);
-    let debug_ranges: gimli::DebugRanges<_> = load_section(&arena, &file, endian);
-    let debug_rnglists: gimli::DebugRngLists<_> = load_section(&arena, &file, endian);
+    let debug_abbrev: gimli::DebugAbbrev<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_addr: gimli::DebugAddr<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_info: gimli::DebugInfo<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_line: gimli::DebugLine<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_line_str: gimli::DebugLineStr<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_str: gimli::DebugStr<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_str_offsets: gimli::DebugStrOffsets<_> =
+        load_section(&arena, &file, data.len(), endian)?;
+    let debug_ranges: gimli::DebugRanges<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_rnglists: gimli::DebugRngLists<_> = load_section(&arena, &file, data.len(), endian)?;
     let ranges = gimli::RangeLists::new(debug_ranges, debug_rnglists);
     let dwarf = gimli::Dwarf {
         debug_abbrev,
-- 
2.43.0


From ef572411a08cf62fe08d799b013023de2b6043a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 32/42] fix: implausible section counts and compressed sizes in
 ELF files exhaust memory

---
 parser/object_parse/mod.rs | 66 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index f45a849..87c367f 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -3,6 +3,7 @@ use fallible_iterator::FallibleIterator;
 use gimli;
 use object::{self, Object, ObjectSection};
 use std::borrow::{Borrow, Cow};
+use std::convert::TryFrom;
 use twiggy_ir as ir;
 use typed_arena::Arena;
 
@@ -25,6 +26,7 @@ where
     let data = match file.section_by_name(Sect::section_name()) {
         Some(section) => {
             check_section(&section, file_size)?;
+            check_compressed_size(file, &section)?;
             section.uncompressed_data()
         }
         None => Cow::Borrowed(&[][..]),
@@ -50,7 +52,71 @@ fn check_section(section: &object::Section, file_size: usize) -> anyhow::Result<
     Ok(())
 }
 
+// Helper function used to check the size that a compressed section claims to
+// have when it is decompressed, because that many bytes will be allocated.
+fn check_compressed_size(file: &object::File, section: &object::Section) -> anyhow::Result<()> {
+    // The maximum compression ratio of the deflate format.
+    const MAX_RATIO: u64 = 1032;
+    const SHF_COMPRESSED: u64 = 0x800;
+
+    let data = section.data();
+    let size = match section.flags() {
+        object::SectionFlags::Elf { sh_flags } if sh_flags & SHF_COMPRESSED != 0 => {
+            let (offset, len) = if file.is_64() { (8, 8) } else { (4, 4) };
+            read_uint(&data, offset, len, file.is_little_endian())
+        }
+        _ if section.name().map_or(false, |n| n.starts_with(".zdebug_"))
+            && data.starts_with(b"ZLIB") =>
+        {
+            read_uint(&data, 4, 8, false)
+        }
+        _ => None,
+    };
+    match size {
+        Some(size) if size > MAX_RATIO * data.len() as u64 => Err(anyhow!(
+            "Compressed section {} claims to have {} bytes",
+            section.name().unwrap_or("?"),
+            size
+        )),
+        _ => Ok(()),
+    }
+}
+
+// Helper function used to check the number of section headers in an ELF file
+// that stores it in the first of them, because that many will be allocated.
+fn check_section_count(data: &[u8]) -> anyhow::Result<()> {
+    if data.len() < 16 || !data.starts_with(b"\x7fELF") {
+        return Ok(());
+    }
+    let is_little_endian = data[5] == 1;
+    let read = |offset, len| read_uint(data, offset, len, is_little_endian);
+    let (headers, count, size, header_size) = if data[4] == 1 {
+        (read(32, 4), read(48, 2), (20, 4), 40)
+    } else {
+        (read(40, 8), read(60, 2), (32, 8), 64)
+    };
+    if let (Some(headers), Some(0)) = (headers, count) {
+        let count = usize::try_from(headers)
+            .ok()
+            .and_then(|headers| read(headers.checked_add(size.0)?, size.1));
+        if headers != 0 && count.map_or(false, |n| n > (data.len() / header_size) as u64) {
+            return Err(anyhow!("Invalid number of section headers"));
+        }
+    }
+    Ok(())
+}
+
+// Helper function used to read an unsigned integer of `len` bytes.
+fn read_uint(data: &[u8], offset: usize, len: usize, is_little_endian: bool) -> Option<u64> {
+    let mut bytes = data.get(offset..offset.checked_add(len)?)?.to_vec();
+    if is_little_endian {
+        bytes.reverse();
+    }
+    Some(bytes.iter().fold(0, |n, b| n << 8 | u64::from(*b)))
+}
+
 pub fn parse(items: &mut ir::ItemsBuilder, data: &[u8]) -> anyhow::Result<()> {
+    check_section_count(data)?;
     let file: object::File = object::File::parse(data)
         .map_err(|err| anyhow!("Failed to parse data with err: {:?}", err))?;
 
-- 
2.43.0


From c0568935c6bbede71be190fc1fdde5f43f5d54e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 33/42] fix: subprograms of 4 GiB and more together overflow
 the sum of sizes

---
 parser/object_parse/die_parse/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/object_parse/die_parse/mod.rs b/parser/object_parse/die_parse/mod.rs
index 73e69f8..e5ba70c 100644
--- a/parser/object_parse/die_parse/mod.rs
+++ b/parser/object_parse/die_parse/mod.rs
@@ -25,6 +25,9 @@ pub(super) fn parse_items<R: gimli::Reader>(
             if let Some(size) = DieLocationAttributes::try_from(entry)?.entity_size(dwarf, unit)? {
                 let size = u32::try_from(size)
                     .map_err(|_| anyhow!("Subprogram is too large: {} bytes", size))?;
+                if items.size_added().checked_add(size).is_none() {
+                    return Err(anyhow!("The subprograms are too large together"));
+                }
                 let id = ir::Id::entry(unit_id, entry_id);
                 let name = item_name(entry, dwarf, unit)?
                     .unwrap_or_else(|| format!("Subroutine[{}][{}]", unit_id, entry_id));
-- 
2.43.0


From 8730309663e0c1431452bd9fc0d43d924583a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 34/42] fix: paths lists the synthetic root when it is named

As with regular expressions, "<meta root>" is not the name of an item.
---
 analyze/analyses/paths/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index 2dc635b..3843a08 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -78,6 +78,7 @@ fn get_starting_positions(items: &ir::Items, opts: &opt::Paths) -> anyhow::Resul
         opts.functions()
             .iter()
             .filter_map(|s| items.get_item_by_name(s))
+            .filter(|item| item.id() != items.meta_root())
             .map(|item| item.id())
             .collect()
     };
-- 
2.43.0


From 6b1d110ad6895c8f4329bf6e8dd06b1f325fc21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 35/42] fix: reject a Mach-O file with more load commands than
 it can hold

---
 parser/object_parse/mod.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index 87c367f..e07922f 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -106,6 +106,24 @@ fn check_section_count(data: &[u8]) -> anyhow::Result<()> {
     Ok(())
 }
 
+// Helper function used to check the number of load commands that a Mach-O file
+// claims to have, because that many will be allocated.
+fn check_command_count(data: &[u8]) -> anyhow::Result<()> {
+    const COMMAND_SIZE: u64 = 8;
+
+    let is_little_endian = match read_uint(data, 0, 4, false) {
+        Some(0xfeed_face) | Some(0xfeed_facf) => false,
+        Some(0xcefa_edfe) | Some(0xcffa_edfe) => true,
+        _ => return Ok(()),
+    };
+    match read_uint(data, 16, 4, is_little_endian) {
+        Some(n) if n > data.len() as u64 / COMMAND_SIZE => {
+            Err(anyhow!("Invalid number of load commands"))
+        }
+        _ => Ok(()),
+    }
+}
+
 // Helper function used to read an unsigned integer of `len` bytes.
 fn read_uint(data: &[u8], offset: usize, len: usize, is_little_endian: bool) -> Option<u64> {
     let mut bytes = data.get(offset..offset.checked_add(len)?)?.to_vec();
@@ -117,6 +135,7 @@ fn read_uint(data: &[u8], offset: usize, len: usize, is_little_endian: bool) ->
 
 pub fn parse(items: &mut ir::ItemsBuilder, data: &[u8]) -> anyhow::Result<()> {
     check_section_count(data)?;
+    check_command_count(data)?;
     let file: object::File = object::File::parse(data)
         .map_err(|err| anyhow!("Failed to parse data with err: {:?}", err))?;
 
-- 
2.43.0


From 26e0b6ded596d8c032b9ce2ca7a349cf0160d000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 36/42] fix: reject a COFF file whose string table lies outside
 of it

---
 parser/object_parse/mod.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index e07922f..4bf56ef 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -124,6 +124,29 @@ fn check_command_count(data: &[u8]) -> anyhow::Result<()> {
     }
 }
 
+// Helper function used to check that the string table of a COFF file lies within
+// the file. Parsing the file would panic otherwise.
+fn check_string_table(data: &[u8]) -> anyhow::Result<()> {
+    const SYMBOL_SIZE: u64 = 18;
+
+    let read = |offset, len| read_uint(data, offset, len, true);
+    match read(0, 2) {
+        Some(0x014c) | Some(0x8664) => {}
+        _ => return Ok(()),
+    }
+    let end = read(8, 4).zip(read(12, 4)).and_then(|(symbols, count)| {
+        let offset = symbols + count * SYMBOL_SIZE;
+        let size = read(usize::try_from(offset).ok()?, 4)?;
+        Some(offset + size)
+    });
+    match end {
+        Some(end) if end > data.len() as u64 => {
+            Err(anyhow!("The string table lies outside of the file"))
+        }
+        _ => Ok(()),
+    }
+}
+
 // Helper function used to read an unsigned integer of `len` bytes.
 fn read_uint(data: &[u8], offset: usize, len: usize, is_little_endian: bool) -> Option<u64> {
     let mut bytes = data.get(offset..offset.checked_add(len)?)?.to_vec();
@@ -136,6 +159,7 @@ fn read_uint(data: &[u8], offset: usize, len: usize, is_little_endian: bool) ->
 pub fn parse(items: &mut ir::ItemsBuilder, data: &[u8]) -> anyhow::Result<()> {
     check_section_count(data)?;
     check_command_count(data)?;
+    check_string_table(data)?;
     let file: object::File = object::File::parse(data)
         .map_err(|err| anyhow!("Failed to parse data with err: {:?}", err))?;
 
-- 
2.43.0


From 7ade28ac56f3a3849bbe10a5ebfc2ca3544abe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 37/42] fix: find the string offsets section of a Mach-O file
 under its cut name

---
 parser/object_parse/mod.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index 4bf56ef..1680aab 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -1,6 +1,7 @@
 use anyhow::anyhow;
 use fallible_iterator::FallibleIterator;
 use gimli;
+use object::target_lexicon::BinaryFormat;
 use object::{self, Object, ObjectSection};
 use std::borrow::{Borrow, Cow};
 use std::convert::TryFrom;
@@ -23,7 +24,7 @@ where
     'file: 'input,
     'a: 'file,
 {
-    let data = match file.section_by_name(Sect::section_name()) {
+    let data = match section_by_name(file, Sect::section_name()) {
         Some(section) => {
             check_section(&section, file_size)?;
             check_compressed_size(file, &section)?;
@@ -35,6 +36,23 @@ where
     Ok(Sect::from(gimli::EndianSlice::new(data_ref, endian)))
 }
 
+// Helper function used to find a section. The name of a section is cut to 16 bytes
+// in a Mach-O file, where it starts with `__` instead of `.`.
+fn section_by_name<'data, 'file>(
+    file: &'file object::File<'data>,
+    name: &str,
+) -> Option<object::Section<'data, 'file>> {
+    const MACHO_NAME_LEN: usize = 15;
+
+    let section = file.section_by_name(name);
+    match file.format() {
+        BinaryFormat::Macho => {
+            section.or_else(|| file.section_by_name(name.get(..MACHO_NAME_LEN)?))
+        }
+        _ => section,
+    }
+}
+
 // Helper function used to check that a section lies within the file. Reading
 // its contents would panic otherwise.
 fn check_section(section: &object::Section, file_size: usize) -> anyhow::Result<()> {
-- 
2.43.0


From e0648bc78f0b27ed0300540d786bd049d9368e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 38/42] fix: reject a Mach-O file with a thread state outside
 of it

---
 parser/object_parse/mod.rs | 43 ++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index 1680aab..264a196 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -125,21 +125,42 @@ fn check_section_count(data: &[u8]) -> anyhow::Result<()> {
 }
 
 // Helper function used to check the number of load commands that a Mach-O file
-// claims to have, because that many will be allocated.
-fn check_command_count(data: &[u8]) -> anyhow::Result<()> {
-    const COMMAND_SIZE: u64 = 8;
+// claims to have, because that many will be allocated, and that the state of each
+// thread lies within the file. Parsing the file would panic otherwise.
+fn check_load_commands(data: &[u8]) -> anyhow::Result<()> {
+    const COMMAND_SIZE: usize = 8;
+    const LC_THREAD: u64 = 4;
+    const LC_UNIXTHREAD: u64 = 5;
 
-    let is_little_endian = match read_uint(data, 0, 4, false) {
-        Some(0xfeed_face) | Some(0xfeed_facf) => false,
-        Some(0xcefa_edfe) | Some(0xcffa_edfe) => true,
+    let (is_little_endian, mut offset) = match read_uint(data, 0, 4, false) {
+        Some(0xfeed_face) => (false, 28),
+        Some(0xfeed_facf) => (false, 32),
+        Some(0xcefa_edfe) => (true, 28),
+        Some(0xcffa_edfe) => (true, 32),
         _ => return Ok(()),
     };
-    match read_uint(data, 16, 4, is_little_endian) {
-        Some(n) if n > data.len() as u64 / COMMAND_SIZE => {
-            Err(anyhow!("Invalid number of load commands"))
+    let read = |offset, len| read_uint(data, offset, len, is_little_endian);
+    let count = read(16, 4).unwrap_or(0);
+    if count > (data.len() / COMMAND_SIZE) as u64 {
+        return Err(anyhow!("Invalid number of load commands"));
+    }
+    for _ in 0..count {
+        let (command, size) = match (read(offset, 4), read(offset + 4, 4)) {
+            (Some(command), Some(size)) => (command, size),
+            _ => break,
+        };
+        if command == LC_THREAD || command == LC_UNIXTHREAD {
+            let end = read(offset + 12, 4).map(|n| offset as u64 + 16 + n * 4);
+            if end.map_or(false, |end| end > data.len() as u64) {
+                return Err(anyhow!("A thread state lies outside of the file"));
+            }
         }
-        _ => Ok(()),
+        offset = match usize::try_from(size).ok().and_then(|n| offset.checked_add(n)) {
+            Some(next) if next < data.len() => next,
+            _ => break,
+        };
     }
+    Ok(())
 }
 
 // Helper function used to check that the string table of a COFF file lies within
@@ -176,7 +197,7 @@ fn read_uint(data: &[u8], offset: usize, len: usize, is_little_endian: bool) ->
 
 pub fn parse(items: &mut ir::ItemsBuilder, data: &[u8]) -> anyhow::Result<()> {
     check_section_count(data)?;
-    check_command_count(data)?;
+    check_load_commands(data)?;
     check_string_table(data)?;
     let file: object::File = object::File::parse(data)
         .map_err(|err| anyhow!("Failed to parse data with err: {:?}", err))?;
-- 
2.43.0


From 8ddb2b48e09bf9581805b18676decfddd7d9f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 39/42] fix: apply the relocations of object files

The offsets into other sections in the debugging information of an object file
that has not been linked are left to the linker, as are addresses. Read without
their relocations, every function had the same name and wrong ranges.
---
 parser/object_parse/mod.rs | 77 +++++++++++++++++++++++++++++++-------
 1 file changed, 63 insertions(+), 14 deletions(-)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index 264a196..903f278 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -2,7 +2,7 @@ use anyhow::anyhow;
 use fallible_iterator::FallibleIterator;
 use gimli;
 use object::target_lexicon::BinaryFormat;
-use object::{self, Object, ObjectSection};
+use object::{self, Object, ObjectSection, RelocationKind, RelocationTarget};
 use std::borrow::{Borrow, Cow};
 use std::convert::TryFrom;
 use twiggy_ir as ir;
@@ -15,7 +15,7 @@ mod die_parse;
 fn load_section<'a, 'file, 'input, Sect, Endian>(
     arena: &'a Arena<Cow<'file, [u8]>>,
     file: &'file object::File<'input>,
-    file_size: usize,
+    input: &[u8],
     endian: Endian,
 ) -> anyhow::Result<Sect>
 where
@@ -26,9 +26,14 @@ where
 {
     let data = match section_by_name(file, Sect::section_name()) {
         Some(section) => {
-            check_section(&section, file_size)?;
+            check_section(&section, input.len())?;
             check_compressed_size(file, &section)?;
-            section.uncompressed_data()
+            let data = section.uncompressed_data();
+            if is_relocatable(input, file.is_little_endian()) {
+                relocate(file, &section, data)?
+            } else {
+                data
+            }
         }
         None => Cow::Borrowed(&[][..]),
     };
@@ -53,6 +58,51 @@ fn section_by_name<'data, 'file>(
     }
 }
 
+// Helper function used to tell a relocatable ELF file, which has not been linked.
+fn is_relocatable(data: &[u8], is_little_endian: bool) -> bool {
+    const ET_REL: u64 = 1;
+
+    data.starts_with(b"\x7fELF") && read_uint(data, 16, 2, is_little_endian) == Some(ET_REL)
+}
+
+// Helper function used to fill in the addresses and the offsets into other
+// sections that are left to the linker.
+fn relocate<'file>(
+    file: &object::File,
+    section: &object::Section,
+    mut data: Cow<'file, [u8]>,
+) -> anyhow::Result<Cow<'file, [u8]>> {
+    for (offset, relocation) in section.relocations() {
+        if relocation.kind() != RelocationKind::Absolute {
+            continue;
+        }
+        let target = match relocation.target() {
+            RelocationTarget::Symbol(index) => file.symbol_by_index(index).map(|s| s.address()),
+            RelocationTarget::Section(index) => file.section_by_index(index).map(|s| s.address()),
+        };
+        let offset = usize::try_from(offset)?;
+        let size = usize::from(relocation.size() / 8);
+        let place = read_uint(&data, offset, size, file.is_little_endian());
+        let (target, place) = match (target, place) {
+            (Some(target), Some(place)) => (target, place),
+            _ => return Err(anyhow!("Invalid relocation at offset {}", offset)),
+        };
+        let addend = if relocation.has_implicit_addend() {
+            place
+        } else {
+            relocation.addend() as u64
+        };
+        let value = target.wrapping_add(addend);
+        let place = &mut data.to_mut()[offset..offset + size];
+        if file.is_little_endian() {
+            place.copy_from_slice(&value.to_le_bytes()[..size]);
+        } else {
+            place.copy_from_slice(&value.to_be_bytes()[8 - size..]);
+        }
+    }
+    Ok(data)
+}
+
 // Helper function used to check that a section lies within the file. Reading
 // its contents would panic otherwise.
 fn check_section(section: &object::Section, file_size: usize) -> anyhow::Result<()> {
@@ -211,16 +261,15 @@ pub fn parse(items: &mut ir::ItemsBuilder, data: &[u8]) -> anyhow::Result<()> {
     };
 
     // Load the sections of the file containing debugging information.
-    let debug_abbrev: gimli::DebugAbbrev<_> = load_section(&arena, &file, data.len(), endian)?;
-    let debug_addr: gimli::DebugAddr<_> = load_section(&arena, &file, data.len(), endian)?;
-    let debug_info: gimli::DebugInfo<_> = load_section(&arena, &file, data.len(), endian)?;
-    let debug_line: gimli::DebugLine<_> = load_section(&arena, &file, data.len(), endian)?;
-    let debug_line_str: gimli::DebugLineStr<_> = load_section(&arena, &file, data.len(), endian)?;
-    let debug_str: gimli::DebugStr<_> = load_section(&arena, &file, data.len(), endian)?;
-    let debug_str_offsets: gimli::DebugStrOffsets<_> =
-        load_section(&arena, &file, data.len(), endian)?;
-    let debug_ranges: gimli::DebugRanges<_> = load_section(&arena, &file, data.len(), endian)?;
-    let debug_rnglists: gimli::DebugRngLists<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_abbrev: gimli::DebugAbbrev<_> = load_section(&arena, &file, data, endian)?;
+    let debug_addr: gimli::DebugAddr<_> = load_section(&arena, &file, data, endian)?;
+    let debug_info: gimli::DebugInfo<_> = load_section(&arena, &file, data, endian)?;
+    let debug_line: gimli::DebugLine<_> = load_section(&arena, &file, data, endian)?;
+    let debug_line_str: gimli::DebugLineStr<_> = load_section(&arena, &file, data, endian)?;
+    let debug_str: gimli::DebugStr<_> = load_section(&arena, &file, data, endian)?;
+    let debug_str_offsets: gimli::DebugStrOffsets<_> = load_section(&arena, &file, data, endian)?;
+    let debug_ranges: gimli::DebugRanges<_> = load_section(&arena, &file, data, endian)?;
+    let debug_rnglists: gimli::DebugRngLists<_> = load_section(&arena, &file, data, endian)?;
     let ranges = gimli::RangeLists::new(debug_ranges, debug_rnglists);
     let dwarf = gimli::Dwarf {
         debug_abbrev,
-- 
2.43.0


From ac185b91e01d06cc30f6a3ee6831c75e837e44ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 40/42] fix: read the linkage name of DWARF before version 4

Compilers give it as DW_AT_MIPS_linkage_name there.
---
 parser/object_parse/die_parse/item_name.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/object_parse/die_parse/item_name.rs b/parser/object_parse/die_parse/item_name.rs
index 341e191..170ce44 100644
--- a/parser/object_parse/die_parse/item_name.rs
+++ b/parser/object_parse/die_parse/item_name.rs
@@ -30,7 +30,11 @@ where
     let attr: Option<gimli::read::AttributeValue<R>> =
         match die.attr_value(gimli::DW_AT_linkage_name)? {
             x @ Some(_) => x,
-            None => die.attr_value(gimli::DW_AT_name)?,
+            // This is how the linkage name was given before DWARF 4.
+            None => match die.attr_value(gimli::DW_AT_MIPS_linkage_name)? {
+                x @ Some(_) => x,
+                None => die.attr_value(gimli::DW_AT_name)?,
+            },
         };
     attr.map(|attr| -> anyhow::Result<String> {
         Ok(
-- 
2.43.0


From d0deb4d70baf0983379dffffca588cb9e92dd5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 41/42] fix: read all sections of debugging information of an
 object file

Type units of DWARF 5 stand in sections of their own in a file that has not been
linked. Only the first section of the name was read, so that no function was found.
---
 parser/object_parse/mod.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index 903f278..0ce09dc 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -24,19 +24,27 @@ where
     'file: 'input,
     'a: 'file,
 {
-    let data = match section_by_name(file, Sect::section_name()) {
-        Some(section) => {
-            check_section(&section, input.len())?;
-            check_compressed_size(file, &section)?;
-            let data = section.uncompressed_data();
-            if is_relocatable(input, file.is_little_endian()) {
-                relocate(file, &section, data)?
-            } else {
-                data
-            }
+    let name = Sect::section_name();
+    let is_relocatable = is_relocatable(input, file.is_little_endian());
+    // A file that has not been linked may have several sections of one name.
+    let others = file
+        .sections()
+        .filter(|section| is_relocatable && section.name() == Some(name))
+        .skip(1);
+    let mut data = Cow::Borrowed(&[][..]);
+    for section in section_by_name(file, name).into_iter().chain(others) {
+        check_section(&section, input.len())?;
+        check_compressed_size(file, &section)?;
+        let mut section_data = section.uncompressed_data();
+        if is_relocatable {
+            section_data = relocate(file, &section, section_data)?;
         }
-        None => Cow::Borrowed(&[][..]),
-    };
+        if data.is_empty() {
+            data = section_data;
+        } else {
+            data.to_mut().extend_from_slice(&section_data);
+        }
+    }
     let data_ref = (*arena.alloc(data)).borrow();
     Ok(Sect::from(gimli::EndianSlice::new(data_ref, endian)))
 }
-- 
2.43.0


From a4c9864a8ce444f28d75fc5ef8fab1142a7db883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 42/42] fix: damaged tables of a PE image exhaust memory or
 panic

---
 parser/object_parse/mod.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index 0ce09dc..3a4fca5 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -244,6 +244,32 @@ fn check_string_table(data: &[u8]) -> anyhow::Result<()> {
     }
 }
 
+// Helper function used to leave out the data directories of a PE image. Nothing
+// that they describe is needed here, but the tables of a damaged image would be
+// parsed as well, which can exhaust memory or panic.
+fn without_data_directories(data: &[u8]) -> Cow<[u8]> {
+    const HEADERS_SIZE: usize = 24;
+
+    let count_offset = || {
+        let header = usize::try_from(read_uint(data, 0x3c, 4, true)?).ok()?;
+        let optional_header = header.checked_add(HEADERS_SIZE)?;
+        match read_uint(data, optional_header, 2, true)? {
+            0x10b => optional_header.checked_add(92),
+            0x20b => optional_header.checked_add(108),
+            _ => None,
+        }
+    };
+    let mut data = Cow::Borrowed(data);
+    if data.starts_with(b"MZ") {
+        if let Some(offset) = count_offset() {
+            if let Some(count) = data.to_mut().get_mut(offset..offset.saturating_add(4)) {
+                count.copy_from_slice(&[0; 4]);
+            }
+        }
+    }
+    data
+}
+
 // Helper function used to read an unsigned integer of `len` bytes.
 fn read_uint(data: &[u8], offset: usize, len: usize, is_little_endian: bool) -> Option<u64> {
     let mut bytes = data.get(offset..offset.checked_add(len)?)?.to_vec();
@@ -257,6 +283,7 @@ pub fn parse(items: &mut ir::ItemsBuilder, data: &[u8]) -> anyhow::Result<()> {
     check_section_count(data)?;
     check_load_commands(data)?;
     check_string_table(data)?;
+    let data = &*without_data_directories(data);
     let file: object::File = object::File::parse(data)
         .map_err(|err| anyhow!("Failed to parse data with err: {:?}", err))?;
 
-- 
2.43.0

