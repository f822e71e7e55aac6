From 15712ff8040bbe4a6655e7330919e96cddd54219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 01/15] fix: report transactions that could not be committed
 instead of returning success

A transaction whose context outlived its closure (or whose operations were
poisoned) was dropped with a log line while its caller got Ok.
---
 plotline/src/schema/transaction.rs | 38 ++++++++++++++++++------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/plotline/src/schema/transaction.rs b/plotline/src/schema/transaction.rs
index be58ad7..479f9e4 100644
--- a/plotline/src/schema/transaction.rs
+++ b/plotline/src/schema/transaction.rs
@@ -8,7 +8,9 @@ use crate::{
     id::Identify,
 };
 
-use super::{guard::SchemaWriteGuard, resource::ResourceSet, trigger::TriggerSet, Result, Schema};
+use super::{
+    guard::SchemaWriteGuard, resource::ResourceSet, trigger::TriggerSet, Error, Result, Schema,
+};
 
 /// Represents a set of operations that must be perfomed as a whole.
 pub trait Transaction: Sized {
@@ -55,9 +57,10 @@ where
     where
         F: FnOnce(Context<'_, Self::Target>) -> Result<U>,
     {
-        f((&self).into()).inspect(|_| {
-            self.commit();
-        })
+        let output = f((&self).into())?;
+        self.commit()?;
+
+        Ok(output)
     }
 }
 
@@ -66,22 +69,22 @@ where
     T: Identify,
     T::Id: Clone + Ord,
 {
-    fn commit(mut self) {
+    fn commit(mut self) -> Result<()> {
         let Some(mut guard) = self.guard.take() else {
             tracing::error!("committing uninitialized transaction");
-            return;
+            return Err(Error::custom("transaction is not initialized"));
         };
 
         let Some(ops) = Arc::into_inner(self.operations) else {
             tracing::error!("commiting transaction with contexts yet in use");
-            return;
+            return Err(Error::custom("transaction has contexts yet in use"));
         };
 
         let ops = match ops.into_inner() {
             Ok(ops) => ops,
             Err(err) => {
                 tracing::error!(error = err.to_string(), "committing poisoned transaction");
-                return;
+                return Err(Error::custom(err));
             }
         };
 
@@ -93,6 +96,8 @@ where
                 guard.remove(&node_id);
             }
         });
+
+        Ok(())
     }
 }
 
@@ -127,9 +132,10 @@ where
     where
         F: FnOnce(Context<'_, Self::Target>) -> Result<U>,
     {
-        f((&self).into()).inspect(|_| {
-            self.commit();
-        })
+        let output = f((&self).into())?;
+        self.commit()?;
+
+        Ok(output)
     }
 }
 
@@ -137,17 +143,17 @@ impl<T> Foreground<'_, T>
 where
     T: Identify,
 {
-    fn commit(self) {
+    fn commit(self) -> Result<()> {
         let Some(ops) = Arc::into_inner(self.operations) else {
             tracing::error!("commiting transaction with contexts yet in use");
-            return;
+            return Err(Error::custom("transaction has contexts yet in use"));
         };
 
         let ops = match ops.into_inner() {
             Ok(ops) => ops,
             Err(err) => {
                 tracing::error!(error = err.to_string(), "committing poisoned transaction");
-                return;
+                return Err(Error::custom(err));
             }
         };
 
@@ -158,11 +164,13 @@ where
                     error = err.to_string(),
                     "committing transaction into poisoned context"
                 );
-                return;
+                return Err(Error::custom(err));
             }
         };
 
         upstream_ops.extend(ops);
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 5c221010c4a83d3edae874c8cd12aeb749afda0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 02/15] fix: fail a save whose node can no longer be read

If a trigger panicked while changing the target and another contained the
panic, Save returned Ok without saving anything.
---
 plotline/src/schema/ops/save.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plotline/src/schema/ops/save.rs b/plotline/src/schema/ops/save.rs
index 426f052..3e6773e 100644
--- a/plotline/src/schema/ops/save.rs
+++ b/plotline/src/schema/ops/save.rs
@@ -4,7 +4,7 @@ use crate::{
     deref::With,
     id::Identify,
     prelude::Transaction,
-    schema::{trigger::Trigger, Result},
+    schema::{trigger::Trigger, Error, Result},
 };
 
 /// Schedules a trigger before a save is performed.
@@ -28,7 +28,9 @@ impl<T> Save<T> {
         tx.with(|ctx| {
             let ctx = ctx.with_target(self.node);
             ctx.triggers().select(BeforeSave).execute(&ctx)?;
-            ctx.target().with(|node| ctx.save(node.clone()));
+            ctx.target()
+                .with(|node| ctx.save(node.clone()))
+                .ok_or_else(|| Error::custom("the node being saved is not available"))?;
             ctx.triggers().select(AfterSave).execute(&ctx)?;
 
             Ok(())
-- 
2.43.0


From aa5464593b60c27bef0655de475bfeefc74fb1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 03/15] fix: yield the document when a concurrent access loaded
 it first

An access to a lazy document that lost the race to store what it had found
returned nothing.
---
 plotline/src/document/lazy.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/plotline/src/document/lazy.rs b/plotline/src/document/lazy.rs
index e60a031..919cf6a 100644
--- a/plotline/src/document/lazy.rs
+++ b/plotline/src/document/lazy.rs
@@ -60,16 +60,10 @@ where
             return doc;
         }
 
-        if self
-            .document
-            .set(self.document_repo.find_by_id(&self.document_id)?)
-            .is_err()
-        {
-            tracing::error!(id = format!("{:?}", self.document_id), "document not found");
-            return None;
-        }
+        let document = self.document_repo.find_by_id(&self.document_id)?;
 
-        self.document.get()
+        // another access may have loaded the document in the meantime
+        Some(self.document.get_or_init(|| document))
     }
 }
 
-- 
2.43.0


From 1d5f1e8224f0fd7c6f505ca0ee9d0dab394761e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 04/15] fix: find a document by the very name it is listed for,
 dots included

---
 plotline-cli/src/repository.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index be8dd8e..24d56a1 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -21,7 +21,11 @@ impl DocumentRepository for LocalDocumentRepository {
     type Document = Document;
 
     fn find_by_id(&self, id: &<Self::Document as Identify>::Id) -> Option<Self::Document> {
-        let path = self.context.join(id).with_extension(&self.extension);
+        // the id may contain dots itself, hence its last segment must not be replaced
+        let mut path = self.context.join(id).into_os_string();
+        path.push(".");
+        path.push(&self.extension);
+        let path = PathBuf::from(path);
 
         fs::read(&path)
             .inspect_err(|err| {
@@ -65,9 +69,11 @@ impl LocalDocumentRepository {
                 }
             })
             .filter_map(move |entry| {
-                let path = entry
-                    .path()
-                    .with_extension("")
+                // the extension may consist of several segments, all of them must be stripped
+                let path = self
+                    .extension
+                    .split('.')
+                    .fold(entry.path().to_owned(), |path, _| path.with_extension(""))
                     .strip_prefix(&self.context)
                     .map(ToOwned::to_owned);
 
-- 
2.43.0


From 6b1f203aa11e969851ae55a6e0ac2de3f16c3da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 05/15] fix: give a loaded document the id it was asked for

---
 plotline-cli/src/repository.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index 24d56a1..a26f7bb 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -37,7 +37,10 @@ impl DocumentRepository for LocalDocumentRepository {
                     "finding document by id"
                 )
             })
-            .map(|bytes| Document { path, bytes })
+            .map(|bytes| Document {
+                path: id.clone(),
+                bytes,
+            })
             .ok()
     }
 }
-- 
2.43.0


From e45de26bee1934ffc942fa6c2ecb089181fa1930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:35 +0000
Subject: [PATCH 06/15] fix: match the extension of documents literally

---
 plotline-cli/src/repository.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index a26f7bb..b2bf9ab 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -61,7 +61,7 @@ impl LocalDocumentRepository {
                 entry.ok()
             })
             .filter({
-                let regex = Regex::new(&format!("\\.{}$", self.extension))
+                let regex = Regex::new(&format!("\\.{}$", regex::escape(&self.extension)))
                     .expect("pattern should be a valid regular expression");
 
                 move |entry| {
-- 
2.43.0


From 7c207b87ed357f78d4f302509e65df9dcb487ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 07/15] fix: do not list directories as documents

---
 plotline-cli/src/repository.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index b2bf9ab..17781e0 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -65,7 +65,9 @@ impl LocalDocumentRepository {
                     .expect("pattern should be a valid regular expression");
 
                 move |entry| {
-                    let matches = regex.is_match(&entry.file_name().to_string_lossy());
+                    let is_dir = entry.file_type().is_some_and(|file_type| file_type.is_dir());
+                    let matches =
+                        !is_dir && regex.is_match(&entry.file_name().to_string_lossy());
                     tracing::debug!(path = entry.path().to_string_lossy().to_string(), matches);
 
                     matches
-- 
2.43.0


From 678d0cb624d8907e5663dcfdab5efb58f7e8a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:35 +0000
Subject: [PATCH 08/15] fix: fail the list command whose output cannot be
 written

---
 plotline-cli/src/document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plotline-cli/src/document.rs b/plotline-cli/src/document.rs
index 33d71f4..d791706 100644
--- a/plotline-cli/src/document.rs
+++ b/plotline-cli/src/document.rs
@@ -96,7 +96,9 @@ where
                 self.schema
                     .read()
                     .into_iter()
-                    .for_each(|node| writeln!(stdout, "{:?}", node.id()).unwrap());
+                    .try_for_each(|node| writeln!(stdout, "{:?}", node.id()))?;
+
+                stdout.flush()?;
             }
             DocumentSubCommand::Save(args) => {
                 let document_id = document_id()?;
-- 
2.43.0


From d2558cde229f1fa368ff804ac9a4fd06a2c5b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:58 +0000
Subject: [PATCH 09/15] fix: do not panic when the working directory cannot be
 told

---
 plotline-cli/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plotline-cli/src/main.rs b/plotline-cli/src/main.rs
index 64e44fa..6f10f56 100644
--- a/plotline-cli/src/main.rs
+++ b/plotline-cli/src/main.rs
@@ -14,9 +14,10 @@ use tracing::Level;
 static DEFAULT_EXTENSION: &str = "md";
 
 static DEFAULT_CONTEXT: LazyLock<OsString> = LazyLock::new(|| {
+    // evaluated even if another context is given, hence it must not fail
     std::env::current_dir()
-        .expect("current working directory")
-        .into_os_string()
+        .map(PathBuf::into_os_string)
+        .unwrap_or_else(|_| OsString::from("."))
 });
 
 /// An astonishing graph-based docs manager.
-- 
2.43.0


From 9789a25168f666fa32799915b73dbfcd3d03a5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 10/15] fix: do not panic when a message cannot be written

---
 plotline-cli/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plotline-cli/src/main.rs b/plotline-cli/src/main.rs
index 6f10f56..9fea308 100644
--- a/plotline-cli/src/main.rs
+++ b/plotline-cli/src/main.rs
@@ -61,6 +61,8 @@ fn main() -> Result<()> {
         .with_target(false)
         .with_max_level(Level::INFO)
         .with_writer(io::stderr)
+        // otherwise an event that cannot be written panics
+        .log_internal_errors(false)
         .init();
 
     let document_repo = Arc::new(LocalDocumentRepository {
-- 
2.43.0


From 06a2c4b361f03e1293514b5a606f42613788e4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 11/15] fix: acquire several resources in one order

Requests for several resources at once acquired them in the order they were
named, so two requests naming common resources in opposite orders could wait
for each other forever.
---
 plotline/src/deref.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/plotline/src/deref.rs b/plotline/src/deref.rs
index b000d48..18ca14a 100644
--- a/plotline/src/deref.rs
+++ b/plotline/src/deref.rs
@@ -1,5 +1,7 @@
 //! Deref definition.
 
+use std::any::TypeId;
+
 /// A type that may be immutably dereferenced.
 pub trait TryDeref {
     type Target;
@@ -86,6 +88,16 @@ where
     }
 }
 
+/// Returns the indices of the given types in the order in which values of these types must be acquired.
+///
+/// Acquiring in the same order whatever the position of each type prevents those requests with types
+/// in common from waiting for each other forever.
+fn acquisition_order<const N: usize>(types: [TypeId; N]) -> [usize; N] {
+    let mut order = std::array::from_fn(|index| index);
+    order.sort_by_key(|&index: &usize| types[index]);
+    order
+}
+
 macro_rules! impl_with {
     ($($t:ident $i:tt),*) => {
         #[allow(non_snake_case)]
@@ -99,10 +111,17 @@ macro_rules! impl_with {
             where
                 _F: FnOnce(Self::Target<'_>) -> _R
             {
-                $(let $t = self.$i.read();)*
+                $(let mut $t = None;)*
+
+                for index in acquisition_order([$(TypeId::of::<$t::Target>()),*]) {
+                    match index {
+                        $($i => $t = Some(self.$i.read()),)*
+                        _ => return None,
+                    }
+                }
 
                 let target = (
-                    $($t.try_deref()?),*
+                    $($t.as_ref()?.try_deref()?),*
                 );
 
                 Some(f(target))
@@ -120,10 +139,17 @@ macro_rules! impl_with {
             where
                 _F: FnOnce(Self::Target<'_>) -> _R
             {
-                $(let mut $t = self.$i.write();)*
+                $(let mut $t = None;)*
+
+                for index in acquisition_order([$(TypeId::of::<$t::Target>()),*]) {
+                    match index {
+                        $($i => $t = Some(self.$i.write()),)*
+                        _ => return None,
+                    }
+                }
 
                 let target = (
-                    $($t.try_deref_mut()?),*
+                    $($t.as_mut()?.try_deref_mut()?),*
                 );
 
                 Some(f(target))
-- 
2.43.0


From a25605c8942e1fbf5fb8315674fab69ea9caef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 12/15] fix: deleting an interval above two others must not
 overflow the stack

---
 plugins/interval/src/node.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index 1b430e4..8b28ee4 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -221,8 +221,14 @@ where
             }
 
             let center = intervals.len() / 2;
+            let right = intervals.split_off(center + 1);
             let left = intervals.drain(0..center).collect();
-            immersion(immersion(root, left), intervals)
+            let root = intervals
+                .pop()
+                .into_iter()
+                .fold(root, |root, interval| root.insert(interval));
+
+            immersion(immersion(root, left), right)
         }
 
         let mut intervals = self.into_inorder();
-- 
2.43.0


From 7e248019ed092423d43c32cc3660cd43faea1e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 13/15] fix: keep the intervals when comparing them panics

---
 plugins/interval/src/node.rs | 116 +++++++++++++----------------------
 plugins/interval/src/tree.rs |  12 ++--
 2 files changed, 46 insertions(+), 82 deletions(-)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index 8b28ee4..f146c78 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -10,6 +10,7 @@ where
     Intv: Interval,
 {
     value: Intv,
+    /// An upper bound of the intervals in the tree rooted by this node.
     max: Intv::Bound,
     left: Option<Box<IntervalSearchTreeNode<Intv>>>,
     right: Option<Box<IntervalSearchTreeNode<Intv>>>,
@@ -76,24 +77,44 @@ impl<Intv> IntervalSearchTreeNode<Intv>
 where
     Intv: PartialEq + Interval,
 {
-    /// Deletes the given interval from the tree rooted by self.
-    pub fn delete(mut self: Box<Self>, interval: &Intv) -> Option<Box<Self>> {
-        if &self.value == interval {
-            return match (self.left, self.right) {
-                (Some(left), Some(right)) => Some(left.join(right)),
-                (left, _) if left.is_some() => left,
-                (_, right) if right.is_some() => right,
-                _ => None,
+    /// Deletes the given interval from the tree rooted by the given node.
+    pub fn delete(node: &mut Option<Box<Self>>, interval: &Intv) {
+        let Some(this) = node else {
+            return;
+        };
+
+        if &this.value == interval {
+            *node = match Self::take_first(&mut this.right) {
+                Some(mut root) => {
+                    root.left = this.left.take();
+                    root.right = this.right.take();
+                    root.max = this.max;
+                    Some(root)
+                }
+                None => this.left.take(),
             };
+
+            return;
+        }
+
+        if interval.lo() < this.value.lo() {
+            Self::delete(&mut this.left, interval);
+        } else if interval.lo() > this.value.lo() {
+            Self::delete(&mut this.right, interval);
         }
+    }
 
-        if interval.lo() < self.value.lo() {
-            self.left = self.left.map(|left| left.delete(interval)).flatten();
-        } else if interval.lo() > self.value.lo() {
-            self.right = self.right.map(|right| right.delete(interval)).flatten();
+    /// Takes the first node, in order, out of the tree rooted by the given one.
+    fn take_first(node: &mut Option<Box<Self>>) -> Option<Box<Self>> {
+        if let Some(this) = node {
+            if this.left.is_some() {
+                return Self::take_first(&mut this.left);
+            }
         }
 
-        Some(self)
+        let mut first = node.take()?;
+        *node = first.right.take();
+        Some(first)
     }
 }
 
@@ -187,73 +208,20 @@ where
     }
 
     /// Inserts the given interval in the tree rooted by self.
-    pub fn insert(mut self: Box<Self>, interval: Intv) -> Box<Self> {
+    pub fn insert(&mut self, interval: Intv) {
         if self.max < interval.hi() {
             self.max = interval.hi();
         }
 
-        if interval.lo() < self.value.lo() {
-            if let Some(left) = self.left.take() {
-                self.left = Some(left.insert(interval));
-            } else {
-                self.left = Some(Box::new(interval.into()));
-            }
-        } else if let Some(right) = self.right.take() {
-            self.right = Some(right.insert(interval));
+        let child = if interval.lo() < self.value.lo() {
+            &mut self.left
         } else {
-            self.right = Some(Box::new(interval.into()));
-        }
-
-        self
-    }
-
-    /// Given the root of a left (self) and right trees, joins them into a single one.
-    fn join(self: Box<Self>, right: Box<Self>) -> Box<Self> {
-        fn immersion<Intv>(
-            root: Box<IntervalSearchTreeNode<Intv>>,
-            mut intervals: Vec<Intv>,
-        ) -> Box<IntervalSearchTreeNode<Intv>>
-        where
-            Intv: Interval,
-        {
-            if intervals.is_empty() {
-                return root;
-            }
-
-            let center = intervals.len() / 2;
-            let right = intervals.split_off(center + 1);
-            let left = intervals.drain(0..center).collect();
-            let root = intervals
-                .pop()
-                .into_iter()
-                .fold(root, |root, interval| root.insert(interval));
-
-            immersion(immersion(root, left), right)
-        }
-
-        let mut intervals = self.into_inorder();
-        intervals.extend(right.into_inorder());
-
-        let center = intervals.len() / 2;
-        let root = Self::new(intervals.remove(center));
-
-        immersion(Box::new(root), intervals)
-    }
+            &mut self.right
+        };
 
-    /// Returns a vector with all the intervals in order.
-    fn into_inorder(self: Box<Self>) -> Vec<Intv> {
-        fn immersion<Intv>(node: Box<IntervalSearchTreeNode<Intv>>, v: &mut Vec<Intv>)
-        where
-            Intv: Interval,
-        {
-            node.left.map(|left| immersion(left, v));
-            v.push(node.value);
-            node.right.map(|right| immersion(right, v));
+        match child {
+            Some(child) => child.insert(interval),
+            None => *child = Some(Box::new(interval.into())),
         }
-
-        let mut v = Vec::with_capacity(self.count());
-        immersion(self, &mut v);
-
-        v
     }
 }
diff --git a/plugins/interval/src/tree.rs b/plugins/interval/src/tree.rs
index cc56a94..a483774 100644
--- a/plugins/interval/src/tree.rs
+++ b/plugins/interval/src/tree.rs
@@ -27,9 +27,7 @@ where
 {
     /// Deletes the given interval from the tree.
     pub fn delete(&mut self, id: &Intv) {
-        if let Some(root) = self.root.take() {
-            self.root = root.delete(id);
-        }
+        IntervalSearchTreeNode::delete(&mut self.root, id);
     }
 }
 
@@ -45,12 +43,10 @@ where
 
     /// Inserts the given interval in the tree.
     pub fn insert(&mut self, interval: Intv) {
-        if let Some(root) = self.root.take() {
-            self.root = Some(root.insert(interval));
-            return;
+        match &mut self.root {
+            Some(root) => root.insert(interval),
+            None => self.root = Some(Box::new(IntervalSearchTreeNode::new(interval))),
         }
-
-        self.root = Some(Box::new(IntervalSearchTreeNode::new(interval)));
     }
 
     /// Returns true if, and only if, there is an interval in the tree that intersects the given
-- 
2.43.0


From bbd9993f7e828ab0a0ddb0ae291ea38bda8b010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 14/15] fix: delete an interval that begins where another one
 does

---
 plugins/interval/src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index f146c78..fe98c1b 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -99,7 +99,7 @@ where
 
         if interval.lo() < this.value.lo() {
             Self::delete(&mut this.left, interval);
-        } else if interval.lo() > this.value.lo() {
+        } else {
             Self::delete(&mut this.right, interval);
         }
     }
-- 
2.43.0


From a8a10072073f0092c4665110f793c8785fa4828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 15/15] fix: find intersections beyond where deleted intervals
 were

---
 plugins/interval/src/node.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index fe98c1b..4a218d4 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -139,21 +139,17 @@ where
             return true;
         }
 
-        let continue_right = || {
-            self.right
-                .as_ref()
-                .is_some_and(|right| right.intersects(interval))
-        };
+        if let Some(left) = &self.left {
+            if left.max >= interval.lo() && left.intersects(interval) {
+                return true;
+            }
+        }
 
-        let Some(left) = &self.left else {
-            return continue_right();
+        let Some(right) = &self.right else {
+            return false;
         };
 
-        if left.max < interval.lo() {
-            return continue_right();
-        }
-
-        left.intersects(interval)
+        self.value.lo() <= interval.hi() && right.intersects(interval)
     }
 
     /// Calls the given closure for each interval in the tree overlapping the given one.
-- 
2.43.0

