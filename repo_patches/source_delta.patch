From e0927826f25261291ed0f6da0f4b62e5f7516b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:50 +0000
Subject: [PATCH 01/19] fix: class parentheses of `class A[T]:` and `class
 A():`

The first panicked, the second included the colon.
---
 crates/parsa_python_cst/src/lib.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 5e252c6..00768a1 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -2390,14 +2390,13 @@ impl<'db> ClassDef<'db> {
     pub fn closing_and_opening_parentheses(&self) -> Option<std::ops::Range<CodeIndex>> {
         let mut iterator = self.node.iter_children().skip(2);
         let mut opening_paren = iterator.next().unwrap();
+        if opening_paren.is_type(Nonterminal(type_params)) {
+            opening_paren = iterator.next().unwrap();
+        }
         if opening_paren.as_code() != "(" {
-            if opening_paren.is_type(Nonterminal(type_params)) {
-                opening_paren = iterator.next().unwrap();
-            } else {
-                return None;
-            }
+            return None;
         }
-        let closing_paren = iterator.skip(1).next().unwrap();
+        let closing_paren = iterator.find(|n| n.is_leaf()).unwrap();
         Some(opening_paren.start()..closing_paren.end())
     }
 
-- 
2.43.0


From ba9b94120de073df27cf33594b76304e95fa11a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:50 +0000
Subject: [PATCH 02/19] fix: the import of a dotted name in an unfinished
 import statement

`import a, b as c, d.` has no proper import node, asking for it panicked.
---
 crates/parsa_python_cst/src/lib.rs        | 10 ++++------
 crates/zuban_python/src/file/inference.rs |  4 +++-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 00768a1..1290c1b 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -3441,12 +3441,10 @@ impl<'db> DottedAsName<'db> {
         )
     }
 
-    pub fn import(&self) -> ImportName<'db> {
-        let n = self
-            .node
-            .parent_until(&[Nonterminal(import_name)])
-            .expect("There should always be an import_name");
-        ImportName::new(n)
+    pub fn import(&self) -> Option<ImportName<'db>> {
+        // In an unfinished import there is only an error node
+        let n = self.node.parent_until(&[Nonterminal(import_name)])?;
+        Some(ImportName::new(n))
     }
 }
 
diff --git a/crates/zuban_python/src/file/inference.rs b/crates/zuban_python/src/file/inference.rs
index c9c6673..56c2e55 100644
--- a/crates/zuban_python/src/file/inference.rs
+++ b/crates/zuban_python/src/file/inference.rs
@@ -1431,7 +1431,9 @@ impl<'db, 'file> Inference<'db, 'file, '_> {
                                 }
                             }
                             Some(NameImportParent::DottedAsName(i)) => {
-                                node_ref = NodeRef::new(self.file, i.import().index())
+                                if let Some(imp) = i.import() {
+                                    node_ref = NodeRef::new(self.file, imp.index())
+                                }
                             }
                             _ => {}
                         };
-- 
2.43.0


From 24b342588daf0b357cbbb9d852b2c6d950b2f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:50 +0000
Subject: [PATCH 03/19] fix: the function of a param in an unfinished function
 definition

`def f(a, b` panicked, and when nested returned the enclosing function.
---
 crates/parsa_python_cst/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 1290c1b..a0225a5 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -4691,8 +4691,10 @@ impl<'db> NameDef<'db> {
         ) {
             None
         } else {
-            let par = parent.parent_until(&[Nonterminal(function_def)]).unwrap();
-            Some(FunctionDef::new(par))
+            let par = parent
+                .parent_until(&[Nonterminal(function_def), ErrorNonterminal(function_def)])?;
+            par.is_type(Nonterminal(function_def))
+                .then(|| FunctionDef::new(par))
         }
     }
 
-- 
2.43.0


From e9eccfae0a7d1eeab8267a134e9698628e8370b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:50 +0000
Subject: [PATCH 04/19] fix: self assignment lookup of a name in an unfinished
 statement

`for self.x in ` has no proper statement, which caused a panic.
---
 crates/parsa_python_cst/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index a0225a5..34e09a9 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -915,8 +915,7 @@ impl<'db> Name<'db> {
     pub fn maybe_self_assignment_name_on_self_like(&self) -> Option<Assignment<'db>> {
         let node = self
             .node
-            .parent_until(&[Nonterminal(assignment), Nonterminal(stmt)])
-            .expect("There should always be a stmt");
+            .parent_until(&[Nonterminal(assignment), Nonterminal(stmt)])?;
         if node.is_type(Nonterminal(assignment)) {
             Some(Assignment::new(node))
         } else {
-- 
2.43.0


From 38dec2c6182299f95cd1998be898dcbefe85737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:50 +0000
Subject: [PATCH 05/19] fix: the slice of `x[*a]` is a starred expression

---
 crates/parsa_python_cst/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 34e09a9..1c102ce 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -3563,6 +3563,8 @@ impl<'db> Primary<'db> {
             SliceType::NamedExpression(NamedExpression::new(second))
         } else if second.is_type(Nonterminal(slice)) {
             SliceType::Slice(Slice::new(second))
+        } else if second.is_type(Nonterminal(starred_expression)) {
+            SliceType::StarredExpression(StarredExpression::new(second))
         } else {
             SliceType::Slices(Slices::new(second))
         }
-- 
2.43.0


From 38d6c41bfd821b29ed310cf2e9137cd62891ecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:50 +0000
Subject: [PATCH 06/19] fix: looking up a keyword by index

is_type cannot be used with keywords, it panics.
---
 crates/parsa_python_cst/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 1c102ce..a0e50e3 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -598,7 +598,7 @@ macro_rules! create_struct {
             #[inline]
             pub fn maybe_by_index(tree: &'db Tree, node_index: NodeIndex) -> Option<Self> {
                 let node = tree.0.node_by_index(node_index);
-                node.is_type($type).then(|| Self::new(node))
+                (node.type_() == $type).then(|| Self::new(node))
             }
 
             #[inline]
-- 
2.43.0


From 712241c9808f1d5f32923138d0ebced56054e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:20 +0000
Subject: [PATCH 07/19] fix: positional and keyword class patterns must be
 separated by a comma

`case C(a b=1, c=2)` was accepted, and unpacking its patterns panicked.
---
 crates/parsa_python/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/lib.rs b/crates/parsa_python/src/lib.rs
index d404f40..dc029f4 100644
--- a/crates/parsa_python/src/lib.rs
+++ b/crates/parsa_python/src/lib.rs
@@ -225,7 +225,7 @@ create_grammar!(
 
     class_pattern: dotted_pattern_name "(" param_patterns? ")"
     param_patterns:
-          ",".(pattern !"=")+ [",".(keyword_pattern)+] ","?
+          ",".(pattern !"=")+ ["," ",".(keyword_pattern)+] ","?
         | ",".(keyword_pattern)+ ","?
     keyword_pattern: Name "=" pattern
     dotted_pattern_name: [dotted_pattern_name "."] Name
-- 
2.43.0


From 8906d7f25f3ccf2ea480acffc731ed67ff328b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:45 +0000
Subject: [PATCH 08/19] fix: endless recursion on symlinks that point to each
 other

---
 crates/vfs/src/local_fs.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/vfs/src/local_fs.rs b/crates/vfs/src/local_fs.rs
index 01d966c..a0a86ed 100644
--- a/crates/vfs/src/local_fs.rs
+++ b/crates/vfs/src/local_fs.rs
@@ -14,6 +14,9 @@ use crate::{
 
 const GLOBALLY_IGNORED_FOLDERS: [&str; 3] = ["site-packages", "node_modules", "__pycache__"];
 
+// Symlinks can point to each other, this is the same limit that Linux uses (see ELOOP).
+const MAX_SYMLINK_DEPTH: usize = 40;
+
 pub type SimpleLocalFS = LocalFS<Box<dyn Fn(PathWithScheme) + Sync + Send>>;
 
 pub struct LocalFS<T: Fn(PathWithScheme) + Sync + Send> {
@@ -321,14 +324,18 @@ impl<T: Fn(PathWithScheme) + Sync + Send> LocalFS<T> {
         &self,
         path: P,
     ) -> Result<ResolvedFileType, String> {
-        self.follow_symlink_internal(path.as_ref(), path.as_ref())
+        self.follow_symlink_internal(path.as_ref(), path.as_ref(), 0)
     }
 
     fn follow_symlink_internal(
         &self,
         origin_path: &Path,
         path: &Path,
+        depth: usize,
     ) -> Result<ResolvedFileType, String> {
+        if depth >= MAX_SYMLINK_DEPTH {
+            return Err(format!("Too many levels of symlinks in {origin_path:?}"));
+        }
         self.watch(path);
         let target_path = resolve_link(path)?;
         let metadata = std::fs::symlink_metadata(&target_path).map_err(|e| format!("{e}"))?;
@@ -349,7 +356,7 @@ impl<T: Fn(PathWithScheme) + Sync + Send> LocalFS<T> {
             }
             Ok(ResolvedFileType::Directory)
         } else if file_type.is_symlink() {
-            self.follow_symlink_internal(origin_path, &target_path)
+            self.follow_symlink_internal(origin_path, &target_path, depth + 1)
         } else {
             debug_assert!(file_type.is_file());
             Ok(ResolvedFileType::File)
-- 
2.43.0


From 05b0dd08c4afa6f3a98f4552f9f1e49ed2f172d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:45 +0000
Subject: [PATCH 09/19] fix: deleting a directory below a directory that was
 not read removed the latter

---
 crates/vfs/src/tree.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/vfs/src/tree.rs b/crates/vfs/src/tree.rs
index 097ee4c..f4334ec 100644
--- a/crates/vfs/src/tree.rs
+++ b/crates/vfs/src/tree.rs
@@ -485,14 +485,15 @@ impl Entries {
         if let Some(inner) = self.search(name) {
             match &*inner {
                 DirectoryEntry::Directory(dir) => {
-                    if let Some(rest) = rest
-                        // Entries might not be loaded and therefore there's no dir to delete
-                        && let Some(dir_entries) = dir.entries.get()
-                    {
-                        match dir_entries {
-                            DirEntries::Entries(entries) => entries.delete_directory(vfs, rest),
+                    if let Some(rest) = rest {
+                        match dir.entries.get() {
+                            Some(DirEntries::Entries(entries)) => {
+                                entries.delete_directory(vfs, rest)
+                            }
                             // The other workspace is responsible for the deletion
-                            DirEntries::NestedWorkspace(_) => Ok(()),
+                            Some(DirEntries::NestedWorkspace(_)) => Ok(()),
+                            // Entries might not be loaded and therefore there's no dir to delete
+                            None => Ok(()),
                         }
                     } else {
                         drop(inner);
-- 
2.43.0


From 4218431fe0cbd159e81266a53e1cb60b839c7bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:45 +0000
Subject: [PATCH 10/19] fix: deleting a directory in a nested workspace

---
 crates/vfs/src/workspaces.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/vfs/src/workspaces.rs b/crates/vfs/src/workspaces.rs
index 40f4b6a..cc60afb 100644
--- a/crates/vfs/src/workspaces.rs
+++ b/crates/vfs/src/workspaces.rs
@@ -312,10 +312,10 @@ impl Workspaces {
         case_sensitive: bool,
         path: &PathWithScheme,
     ) -> Result<(), String> {
-        for workspace in self.load().iter() {
-            if let Some(p) = workspace.strip_path_prefix(vfs, case_sensitive, path) {
-                return workspace.entries.delete_directory(vfs, p);
-            }
+        if let Some((workspace, rest)) =
+            self.strip_short_path_in_workspace(vfs, case_sensitive, path)
+        {
+            return workspace.entries.delete_directory(vfs, rest);
         }
         Err(format!("Workspace of path {} cannot be found", path.path))
     }
-- 
2.43.0


From d974523fb0ccc5ac7e9972e6434a4f0e3b848610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:37 +0000
Subject: [PATCH 11/19] fix: InsertOnlyVec read its list after releasing the
 lock

In edition 2024 the temporaries of a block's tail expression are dropped at
the end of the block, so the mutex was already unlocked when the list was
read: a concurrent push could move it at the same time.
---
 crates/utils/src/lib.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/crates/utils/src/lib.rs b/crates/utils/src/lib.rs
index 49faa1c..44c2012 100644
--- a/crates/utils/src/lib.rs
+++ b/crates/utils/src/lib.rs
@@ -62,9 +62,8 @@ impl<T: ?Sized, P> Default for InsertOnlyVec<T, P> {
 
 impl<T: ?Sized + Unpin, P: Deref<Target = T>> InsertOnlyVec<T, P> {
     pub fn get(&self, index: usize) -> Option<&T> {
-        unsafe { &*self.vec.lock().unwrap().get() }
-            .get(index)
-            .map(|x| x as &T)
+        let guard = self.vec.lock().unwrap();
+        unsafe { &*guard.get() }.get(index).map(|x| x as &T)
     }
 
     /*
@@ -82,17 +81,18 @@ impl<T: ?Sized + Unpin, P: Deref<Target = T>> InsertOnlyVec<T, P> {
     }
 
     pub fn len(&self) -> usize {
-        unsafe { &*self.vec.lock().unwrap().get() }.len()
+        let guard = self.vec.lock().unwrap();
+        unsafe { &*guard.get() }.len()
     }
 
     pub fn is_empty(&self) -> bool {
-        unsafe { &*self.vec.lock().unwrap().get() }.is_empty()
+        let guard = self.vec.lock().unwrap();
+        unsafe { &*guard.get() }.is_empty()
     }
 
     pub fn last(&self) -> Option<&T> {
-        unsafe { &*self.vec.lock().unwrap().get() }
-            .last()
-            .map(|x| x as &T)
+        let guard = self.vec.lock().unwrap();
+        unsafe { &*guard.get() }.last().map(|x| x as &T)
     }
 
     pub fn clear(&mut self) {
@@ -135,7 +135,8 @@ impl<T, P> IntoIterator for InsertOnlyVec<T, P> {
 
 impl<T: fmt::Debug> fmt::Debug for InsertOnlyVec<T> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        unsafe { &*self.vec.lock().unwrap().get() }.fmt(f)
+        let guard = self.vec.lock().unwrap();
+        unsafe { &*guard.get() }.fmt(f)
     }
 }
 
@@ -143,7 +144,12 @@ impl<T: ?Sized> std::ops::Index<usize> for InsertOnlyVec<T> {
     type Output = T;
 
     fn index(&self, index: usize) -> &T {
-        unsafe { &*self.vec.lock().unwrap().get() }.index(index)
+        let item = {
+            let guard = self.vec.lock().unwrap();
+            unsafe { &*guard.get() }.get(index).map(|x| &**x)
+        };
+        // Only panic once the lock is released, the list itself is intact
+        item.expect("index out of bounds")
     }
 }
 
@@ -154,10 +160,9 @@ impl<T: ?Sized + Unpin> std::ops::IndexMut<usize> for InsertOnlyVec<T> {
 }
 impl<T: ?Sized, P: Clone> Clone for InsertOnlyVec<T, P> {
     fn clone(&self) -> Self {
+        let guard = self.vec.lock().unwrap();
         Self {
-            vec: Mutex::new(UnsafeCell::new(
-                unsafe { &*self.vec.lock().unwrap().get() }.clone(),
-            )),
+            vec: Mutex::new(UnsafeCell::new(unsafe { &*guard.get() }.clone())),
             _ensure_sync: PhantomData,
         }
     }
-- 
2.43.0


From 72973d0f5444cb4ccc7d14e27e408d79f2398c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:37 +0000
Subject: [PATCH 12/19] fix: nested f-strings with double quotes were ended by
 the quote of an inner one

---
 crates/parsa_python/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 1fc3f15..b863e03 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -245,7 +245,7 @@ impl PythonTokenizer<'_> {
                     }
                 }
             } else if character == '"' {
-                for (j, node) in self.f_string_stack.iter().enumerate() {
+                for (j, node) in self.f_string_stack.iter().enumerate().rev() {
                     let quote = node.quote;
                     match quote {
                         QuoteType::Double => return self.end_f_string(i, j, quote),
-- 
2.43.0


From 7440f1f11019ba06a5201f8bf83b3c10b9c6fd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:40 +0000
Subject: [PATCH 13/19] fix: the name after \N in an f-string was searched in
 all of the remaining code

---
 crates/parsa_python/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index b863e03..2d7f8d9 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -38,7 +38,7 @@ lazy_static::lazy_static! {
 
     static ref NEWLINE: Regex = r(r"^(\r\n?|\n)");
     static ref F_STRING_START: Regex = r(r#"^([Ff][Rr]?|[Rr][Ff])("""|'''|'|")"#);
-    static ref UNICODE_CHARACTER_NAME: Regex = r(r"\{[A-Za-z0-9\-]+( [A-Za-z0-9\-]+)*\}");
+    static ref UNICODE_CHARACTER_NAME: Regex = r(r"^\{[A-Za-z0-9\-]+( [A-Za-z0-9\-]+)*\}");
 
     static ref ALWAYS_BREAK_NAMES: HashSet<&'static str> = [
         "import", "class", "def", "try", "except",
-- 
2.43.0


From 28b62fd314042dd365534df5702a31a9d0ceffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:43 +0000
Subject: [PATCH 14/19] fix: dedenting after a line continuation went back into
 a comment

---
 crates/parsa_python/src/tokenizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 2d7f8d9..c0f4c1c 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -464,6 +464,7 @@ impl Iterator for PythonTokenizer<'_> {
             return Some(token);
         }
 
+        let before_whitespace = self.index;
         let indentation = self.skip_whitespace();
 
         let start = self.index;
@@ -480,7 +481,7 @@ impl Iterator for PythonTokenizer<'_> {
                     self.previous_token_was_newline = false;
                     return self.new_tok(start, false, TerminalType::Indent);
                 } else if let Some(token) = self.dedent_if_necessary(indentation) {
-                    self.index -= indentation;
+                    self.index = before_whitespace;
                     return Some(token);
                 }
             }
-- 
2.43.0


From df7d7ae9bcb1b47ff9b163f6ecdd348a9bdb51d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:55 +0000
Subject: [PATCH 15/19] fix: a line continued with \r\n ended an f-string

After a backslash only the \r was skipped, so the \n ended the f-string.
---
 crates/parsa_python/src/tokenizer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index c0f4c1c..affa042 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -293,6 +293,9 @@ impl PythonTokenizer<'_> {
                     }
                     if next != '{' && next != '}' {
                         iterator.next();
+                        if next == '\r' && matches!(iterator.peek(), Some(&(_, '\n'))) {
+                            iterator.next();
+                        }
 
                         if in_expr {
                             self.index += i + 2;
-- 
2.43.0


From 4932322c455dbba72f4aff0082ad2ed208c093f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:58 +0000
Subject: [PATCH 16/19] fix: an incomplete hex escape in a string swallowed
 what follows and could panic

---
 crates/parsa_python_cst/src/bytes.rs   |  2 +-
 crates/parsa_python_cst/src/strings.rs | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/parsa_python_cst/src/bytes.rs b/crates/parsa_python_cst/src/bytes.rs
index 9dc375a..5b478f8 100644
--- a/crates/parsa_python_cst/src/bytes.rs
+++ b/crates/parsa_python_cst/src/bytes.rs
@@ -28,7 +28,7 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
                 b'\\' | b'\'' | b'"' => s.push(ch),
                 b'\n' => (), // Escaping a newline ignores it
                 b'x' => {
-                    if let Some(c) = parse_hex(2, iterator.by_ref()) {
+                    if let Some(c) = parse_hex(2, &mut iterator) {
                         s.push(c as u8);
                         previous_insert += 2;
                     }
diff --git a/crates/parsa_python_cst/src/strings.rs b/crates/parsa_python_cst/src/strings.rs
index beb2235..41dcc0f 100644
--- a/crates/parsa_python_cst/src/strings.rs
+++ b/crates/parsa_python_cst/src/strings.rs
@@ -67,17 +67,17 @@ impl<'db> PythonString<'db> {
                             }
                         }
                         b'u' => {
-                            if let Some(c) = parse_hex(4, iterator.by_ref()) {
+                            if let Some(c) = parse_hex(4, &mut iterator) {
                                 s.push(c)
                             }
                         }
                         b'U' => {
-                            if let Some(c) = parse_hex(8, iterator.by_ref()) {
+                            if let Some(c) = parse_hex(8, &mut iterator) {
                                 s.push(c)
                             }
                         }
                         b'x' => {
-                            if let Some(c) = parse_hex(2, iterator.by_ref()) {
+                            if let Some(c) = parse_hex(2, &mut iterator) {
                                 s.push(c)
                             }
                         }
@@ -199,12 +199,15 @@ impl<'db> PythonString<'db> {
     }
 }
 
-pub(crate) fn parse_hex<'x, I: Iterator<Item = (usize, &'x u8)>>(
+/// Parses exactly `count` hex digits. Nothing is consumed if there are fewer of them.
+pub(crate) fn parse_hex<'x, I: Iterator<Item = (usize, &'x u8)> + Clone>(
     count: usize,
-    iterator: I,
+    iterator: &mut I,
 ) -> Option<char> {
     let mut number = 0;
-    for (i, (_, x)) in iterator.take(count).enumerate() {
+    let mut ahead = iterator.clone();
+    for i in 0..count {
+        let (_, x) = ahead.next()?;
         let digit = if x.is_ascii_digit() {
             *x - b'0'
         } else if (b'a'..=b'f').contains(x) {
@@ -216,6 +219,7 @@ pub(crate) fn parse_hex<'x, I: Iterator<Item = (usize, &'x u8)>>(
         };
         number += (digit as u32) << ((count - i - 1) * 4);
     }
+    *iterator = ahead;
     char::from_u32(number)
 }
 
-- 
2.43.0


From 9f772008a8966ec0784153d493d560d2183857b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:23 +0000
Subject: [PATCH 17/19] fix: the content of a string literal in triple quotes
 had quotes in it

---
 crates/parsa_python_cst/src/lib.rs | 53 +++---------------------------
 1 file changed, 5 insertions(+), 48 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index a0e50e3..0c251e0 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -29,6 +29,7 @@ use parsa_python::{
 pub use ranges::Range;
 pub use signatures::{SignatureArg, SignatureArgsIterator, SignatureBase};
 pub use strings::PythonString;
+use strings::unpack_string_or_bytes_content;
 
 pub const NAME_DEF_TO_NAME_DIFFERENCE: u32 = 1;
 
@@ -4909,57 +4910,13 @@ impl<'db> BytesLiteral<'db> {
 
 impl<'db> StringLiteral<'db> {
     pub fn content(&self) -> &'db str {
-        let code = self.node.as_code();
-        let bytes_ = code.as_bytes();
-        let mut start = 0;
-        let mut quote = None;
-        for (i, b) in bytes_.iter().enumerate() {
-            if *b == b'"' || *b == b'\'' {
-                if let Some(quote) = quote {
-                    if *b == quote && i == start + 3 {
-                        return &code[start + 3..code.len() - 3];
-                    }
-                    break;
-                } else {
-                    quote = Some(*b);
-                }
-            } else if quote.is_some() {
-                break;
-            } else {
-                start += 1;
-            }
-        }
-        let (start, end) = self.content_start_and_end_in_literal_internal();
-        &code[start..end]
-    }
-
-    fn content_start_and_end_in_literal_internal(&self) -> (usize, usize) {
-        let code = self.node.as_code();
-        let bytes_ = code.as_bytes();
-        let mut start = 0;
-        let mut quote = None;
-        for (i, b) in bytes_.iter().enumerate() {
-            if *b == b'"' || *b == b'\'' {
-                if let Some(quote) = quote {
-                    if *b == quote && i == start + 3 {
-                        return (start + 3, code.len() - 3);
-                    }
-                    break;
-                } else {
-                    quote = Some(*b);
-                }
-            } else if quote.is_some() {
-                break;
-            } else {
-                start += 1;
-            }
-        }
-        (start + 1, code.len() - 1)
+        unpack_string_or_bytes_content(self.node.as_code()).inner
     }
 
     pub fn content_start_and_end_in_literal(&self) -> (CodeIndex, CodeIndex) {
-        let (start, end) = self.content_start_and_end_in_literal_internal();
-        (start as CodeIndex, end as CodeIndex)
+        let unpacked = unpack_string_or_bytes_content(self.node.as_code());
+        let start = unpacked.inner_start_offset;
+        (start, start + unpacked.inner.len() as CodeIndex)
     }
 
     pub fn in_simple_assignment(&self) -> Option<NameDef<'db>> {
-- 
2.43.0


From b37c4349bff0bae3e0f0c51a3c8b193351e29b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:08 +0000
Subject: [PATCH 18/19] fix: line ends in bytes literals were not read as
 Python reads them

---
 crates/parsa_python_cst/src/bytes.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/parsa_python_cst/src/bytes.rs b/crates/parsa_python_cst/src/bytes.rs
index 5b478f8..83251b2 100644
--- a/crates/parsa_python_cst/src/bytes.rs
+++ b/crates/parsa_python_cst/src/bytes.rs
@@ -8,14 +8,11 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
     let code = literal.as_code();
     let unpacked = unpack_string_or_bytes_content(code);
     let inner_bytes = unpacked.inner.as_bytes();
-    if unpacked.had_raw_modifier {
-        return Cow::Borrowed(inner_bytes);
-    }
     let mut iterator = inner_bytes.iter().enumerate();
     let mut previous_insert = 0;
     let mut out = None;
     while let Some((i, ch)) = iterator.next() {
-        if ch == &b'\\' {
+        if ch == &b'\\' && !unpacked.had_raw_modifier {
             if out.is_none() {
                 out = Some(Vec::with_capacity(inner_bytes.len()));
             }
@@ -27,6 +24,12 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
             match ch {
                 b'\\' | b'\'' | b'"' => s.push(ch),
                 b'\n' => (), // Escaping a newline ignores it
+                b'\r' => {
+                    if inner_bytes.get(previous_insert) == Some(&b'\n') {
+                        previous_insert += 1;
+                        iterator.next();
+                    }
+                }
                 b'x' => {
                     if let Some(c) = parse_hex(2, &mut iterator) {
                         s.push(c as u8);
@@ -55,6 +58,17 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
                     }
                 }
             }
+        } else if ch == &b'\r' {
+            // Python reads both \r\n and \r as \n, see also PythonString.
+            if out.is_none() {
+                out = Some(Vec::with_capacity(inner_bytes.len()));
+            }
+            let s = out.as_mut().unwrap();
+            s.extend_from_slice(&inner_bytes[previous_insert..i]);
+            previous_insert = i + 1;
+            if inner_bytes.get(previous_insert) != Some(&b'\n') {
+                s.push(b'\n');
+            }
         }
     }
     if let Some(mut out) = out {
-- 
2.43.0


From dafccf7d5ee454bfff72b0424f5c41ca616f6954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:23 +0000
Subject: [PATCH 19/19] fix: a with item never found out that it belongs to an
 async with

---
 crates/parsa_python_cst/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 0c251e0..3389e74 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -1771,8 +1771,10 @@ impl<'db> WithItem<'db> {
     }
 
     pub fn in_async_with_stmt(&self) -> bool {
-        let with = self.node.parent().unwrap().parent().unwrap();
-        with.is_type(Nonterminal(async_stmt))
+        // with_item -> with_items -> with_stmt -> async_stmt
+        let with_stmt_ = self.node.parent().and_then(|n| n.parent());
+        let maybe_async = with_stmt_.and_then(|n| n.parent());
+        maybe_async.is_some_and(|n| n.is_type(Nonterminal(async_stmt)))
     }
 }
 
-- 
2.43.0

