From 6e48f0a2f6b86f44cc210222d3ebf018b2c89c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 01/15] fix: lazy documents losing a first-access race yield
 the loaded content

try_deref returned None, and logged that the document was not found, when another thread cached the
document between the check and the load.
---
 plotline/src/document/lazy.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/plotline/src/document/lazy.rs b/plotline/src/document/lazy.rs
index e60a031..4b4576c 100644
--- a/plotline/src/document/lazy.rs
+++ b/plotline/src/document/lazy.rs
@@ -60,16 +60,10 @@ where
             return doc;
         }
 
-        if self
-            .document
-            .set(self.document_repo.find_by_id(&self.document_id)?)
-            .is_err()
-        {
-            tracing::error!(id = format!("{:?}", self.document_id), "document not found");
-            return None;
-        }
-
-        self.document.get()
+        // Another thread may have loaded the document in the meantime, in which case its version is
+        // the one that remains.
+        let document = self.document_repo.find_by_id(&self.document_id)?;
+        Some(self.document.get_or_init(|| document))
     }
 }
 
-- 
2.43.0


From 5a56087b0d193e0e9ba336c1cfa0b9f2f3414321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 02/15] fix: reject a save whose target is no longer available

When a hook contains a panic raised while it mutates the target, the target cannot be read anymore
and the save reported success without having saved anything.
---
 plotline/src/schema/ops/save.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plotline/src/schema/ops/save.rs b/plotline/src/schema/ops/save.rs
index 426f052..8aa7be0 100644
--- a/plotline/src/schema/ops/save.rs
+++ b/plotline/src/schema/ops/save.rs
@@ -4,7 +4,7 @@ use crate::{
     deref::With,
     id::Identify,
     prelude::Transaction,
-    schema::{trigger::Trigger, Result},
+    schema::{trigger::Trigger, Error, Result},
 };
 
 /// Schedules a trigger before a save is performed.
@@ -28,7 +28,9 @@ impl<T> Save<T> {
         tx.with(|ctx| {
             let ctx = ctx.with_target(self.node);
             ctx.triggers().select(BeforeSave).execute(&ctx)?;
-            ctx.target().with(|node| ctx.save(node.clone()));
+            ctx.target()
+                .with(|node| ctx.save(node.clone()))
+                .ok_or_else(|| Error::custom("target is not available"))?;
             ctx.triggers().select(AfterSave).execute(&ctx)?;
 
             Ok(())
-- 
2.43.0


From 67369ac45daaa35d040fda141ffbf82e30193840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 03/15] hook: build dates from raw components behind the
 verif-hooks feature

---
 plugins/interval/src/date.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/plugins/interval/src/date.rs b/plugins/interval/src/date.rs
index 22ec8ba..6543025 100644
--- a/plugins/interval/src/date.rs
+++ b/plugins/interval/src/date.rs
@@ -27,6 +27,16 @@ pub struct Date<const N: usize, T, Endian> {
     endian: PhantomData<Endian>,
 }
 
+#[cfg(feature = "verif-hooks")]
+impl<const N: usize, T, Endian> From<[T; N]> for Date<N, T, Endian> {
+    fn from(components: [T; N]) -> Self {
+        Self {
+            components,
+            endian: PhantomData,
+        }
+    }
+}
+
 impl<const N: usize, T, Endian> Eq for Date<N, T, Endian> where T: Eq {}
 
 impl<const N: usize, T, Endian> PartialEq for Date<N, T, Endian>
-- 
2.43.0


From 937c578677a241021fba1f83eaac4f88eac30c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 04/15] fix: delete intervals sharing their low bound with
 another one

Insertions place an interval whose low bound equals that of a node in its
right subtree; deletions gave up on such a node instead of continuing there.
---
 plugins/interval/src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index 1b430e4..2363828 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -89,7 +89,7 @@ where
 
         if interval.lo() < self.value.lo() {
             self.left = self.left.map(|left| left.delete(interval)).flatten();
-        } else if interval.lo() > self.value.lo() {
+        } else {
             self.right = self.right.map(|right| right.delete(interval)).flatten();
         }
 
-- 
2.43.0


From 33d9d6e14da4487510d2ec626cea65ab273aa8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 05/15] fix: joining subtrees always completes

The halving of the intervals to join never inserted any of them and recursed
forever as soon as there was one left.
---
 plugins/interval/src/node.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index 2363828..c49f658 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -221,8 +221,13 @@ where
             }
 
             let center = intervals.len() / 2;
-            let left = intervals.drain(0..center).collect();
-            immersion(immersion(root, left), intervals)
+            let right = intervals.split_off(center + 1);
+            let root = match intervals.pop() {
+                Some(interval) => root.insert(interval),
+                None => root,
+            };
+
+            immersion(immersion(root, intervals), right)
         }
 
         let mut intervals = self.into_inorder();
-- 
2.43.0


From 6cf5a8231e27bda189d0e1283ea5a88ca91195c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 06/15] fix: deleting an interval updates the highest bound of
 its ancestors

A stale bound made the overlap test descend into a subtree that could not
hold the answer, and miss the one in its sibling.
---
 plugins/interval/src/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index c49f658..65ce16c 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -93,6 +93,11 @@ where
             self.right = self.right.map(|right| right.delete(interval)).flatten();
         }
 
+        self.max = Some(self.value.hi())
+            .max(self.left.as_ref().map(|left| left.max))
+            .max(self.right.as_ref().map(|right| right.max))
+            .expect("max with Some should never be None");
+
         Some(self)
     }
 }
-- 
2.43.0


From 1437294deeb6cfd5bbae69689948a36ca1964a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 07/15] fix: take the extension of documents literally

Being pasted into a regular expression, an extension with a special character
matched files of other extensions, or made the listing panic.
---
 plotline-cli/src/repository.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index be8dd8e..1f74bba 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -54,7 +54,7 @@ impl LocalDocumentRepository {
                 entry.ok()
             })
             .filter({
-                let regex = Regex::new(&format!("\\.{}$", self.extension))
+                let regex = Regex::new(&format!("\\.{}$", regex::escape(&self.extension)))
                     .expect("pattern should be a valid regular expression");
 
                 move |entry| {
-- 
2.43.0


From 25b6fd93d5e0d053a87c01692408d7445a2e9b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 08/15] fix: list files only

Directories, pipes and broken links named like a document were listed as well.
---
 plotline-cli/src/repository.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index 1f74bba..eb7bbc9 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -53,6 +53,7 @@ impl LocalDocumentRepository {
 
                 entry.ok()
             })
+            .filter(|entry| entry.path().is_file())
             .filter({
                 let regex = Regex::new(&format!("\\.{}$", regex::escape(&self.extension)))
                     .expect("pattern should be a valid regular expression");
-- 
2.43.0


From 6c998e774fcdb8e004423d52104e2513e350e263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 09/15] fix: documents found by id carry that id

They carried the path of the file instead.
---
 plotline-cli/src/repository.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index eb7bbc9..44650eb 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -33,7 +33,10 @@ impl DocumentRepository for LocalDocumentRepository {
                     "finding document by id"
                 )
             })
-            .map(|bytes| Document { path, bytes })
+            .map(|bytes| Document {
+                path: id.clone(),
+                bytes,
+            })
             .ok()
     }
 }
-- 
2.43.0


From 65fb2e80f6c324d8367324b42f751d1e2180c374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 10/15] fix: find documents whose id contains a dot

The extension of the file replaced whatever followed the last dot of the id, so
that such a document was not found or another one was taken for it.
---
 plotline-cli/src/repository.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index 44650eb..e78844c 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -21,7 +21,11 @@ impl DocumentRepository for LocalDocumentRepository {
     type Document = Document;
 
     fn find_by_id(&self, id: &<Self::Document as Identify>::Id) -> Option<Self::Document> {
-        let path = self.context.join(id).with_extension(&self.extension);
+        let mut file_name = id.file_name()?.to_owned();
+        file_name.push(".");
+        file_name.push(&self.extension);
+
+        let path = self.context.join(id).with_file_name(file_name);
 
         fs::read(&path)
             .inspect_err(|err| {
-- 
2.43.0


From 17c8f79f0c89f5bf077c8ee53f716262ba9f8a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 11/15] fix: strip the whole extension from document ids

Only the last part of an extension with dots was removed.
---
 plotline-cli/src/repository.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index e78844c..cd89c6b 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -73,9 +73,12 @@ impl LocalDocumentRepository {
                 }
             })
             .filter_map(move |entry| {
-                let path = entry
-                    .path()
-                    .with_extension("")
+                let mut path = entry.path().with_extension("");
+                for _ in self.extension.matches('.') {
+                    path.set_extension("");
+                }
+
+                let path = path
                     .strip_prefix(&self.context)
                     .map(ToOwned::to_owned);
 
-- 
2.43.0


From 6c02f79b6d5c3a8c142fd27aef215a9b0b737d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 12/15] fix: listing reports a failure to write instead of
 panicking

---
 plotline-cli/src/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plotline-cli/src/document.rs b/plotline-cli/src/document.rs
index 33d71f4..25abf34 100644
--- a/plotline-cli/src/document.rs
+++ b/plotline-cli/src/document.rs
@@ -96,7 +96,7 @@ where
                 self.schema
                     .read()
                     .into_iter()
-                    .for_each(|node| writeln!(stdout, "{:?}", node.id()).unwrap());
+                    .try_for_each(|node| writeln!(stdout, "{:?}", node.id()))?;
             }
             DocumentSubCommand::Save(args) => {
                 let document_id = document_id()?;
-- 
2.43.0


From 308a7e619c6dd8ea4e9ee1456c51dc536fc63c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 13/15] fix: run from a working directory that no longer exists

---
 plotline-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plotline-cli/src/main.rs b/plotline-cli/src/main.rs
index 64e44fa..5bb52c8 100644
--- a/plotline-cli/src/main.rs
+++ b/plotline-cli/src/main.rs
@@ -15,7 +15,7 @@ static DEFAULT_EXTENSION: &str = "md";
 
 static DEFAULT_CONTEXT: LazyLock<OsString> = LazyLock::new(|| {
     std::env::current_dir()
-        .expect("current working directory")
+        .unwrap_or_else(|_| PathBuf::from("."))
         .into_os_string()
 });
 
-- 
2.43.0


From d5d966a320cfa9939c8ec3f3a0b6ddc418e0ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:41 +0000
Subject: [PATCH 14/15] fix: resolve identifiers of pipes and the like to
 nothing

Reading a named pipe in place of a document blocked forever.
---
 plotline-cli/src/repository.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index cd89c6b..940b3f9 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -1,4 +1,4 @@
-use std::{fs, path::PathBuf, sync::Arc};
+use std::{fs, io, path::PathBuf, sync::Arc};
 
 use plotline::{
     document::{lazy::LazyDocument, DocumentRepository},
@@ -27,7 +27,12 @@ impl DocumentRepository for LocalDocumentRepository {
 
         let path = self.context.join(id).with_file_name(file_name);
 
-        fs::read(&path)
+        // Anything but a file has no content to be read, and reading a pipe could block forever.
+        fs::metadata(&path)
+            .and_then(|metadata| match metadata.is_file() {
+                true => fs::read(&path),
+                false => Err(io::Error::other("not a file")),
+            })
             .inspect_err(|err| {
                 tracing::error!(
                     error = ?err,
-- 
2.43.0


From 639c29f8744fbf6f9ed2714109d8bd1e54a860b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:26 +0000
Subject: [PATCH 15/15] fix: commit transactions whose context is never dropped

A body may succeed without its context ever being dropped. The writes
were then discarded, while the transaction reported success.
---
 plotline/src/schema/transaction.rs | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/plotline/src/schema/transaction.rs b/plotline/src/schema/transaction.rs
index be58ad7..76697a7 100644
--- a/plotline/src/schema/transaction.rs
+++ b/plotline/src/schema/transaction.rs
@@ -72,13 +72,8 @@ where
             return;
         };
 
-        let Some(ops) = Arc::into_inner(self.operations) else {
-            tracing::error!("commiting transaction with contexts yet in use");
-            return;
-        };
-
-        let ops = match ops.into_inner() {
-            Ok(ops) => ops,
+        let ops = match self.operations.write() {
+            Ok(mut ops) => std::mem::take(&mut *ops),
             Err(err) => {
                 tracing::error!(error = err.to_string(), "committing poisoned transaction");
                 return;
@@ -138,13 +133,8 @@ where
     T: Identify,
 {
     fn commit(self) {
-        let Some(ops) = Arc::into_inner(self.operations) else {
-            tracing::error!("commiting transaction with contexts yet in use");
-            return;
-        };
-
-        let ops = match ops.into_inner() {
-            Ok(ops) => ops,
+        let ops = match self.operations.write() {
+            Ok(mut ops) => std::mem::take(&mut *ops),
             Err(err) => {
                 tracing::error!(error = err.to_string(), "committing poisoned transaction");
                 return;
-- 
2.43.0

