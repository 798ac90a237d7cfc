From 77b9fd7d7ac690c533d3164667239d9ed5ca0b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:25 +0000
Subject: [PATCH 1/2] fix: drop remaining layers in reverse order when dropping
 one panics

If the destructor of a user-written Seq or Map builder panics while the
deserializer's stack is dropped after an error, the rest of the stack was
dropped by Vec's drop glue, outermost layer first. Inner builders still
borrow from outer ones, so their destructors could observe freed memory.
---
 src/json/de.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/json/de.rs b/src/json/de.rs
index 926c3ee..6046be6 100644
--- a/src/json/de.rs
+++ b/src/json/de.rs
@@ -50,9 +50,21 @@ enum Layer<'a> {
 
 impl<'a, 'b> Drop for Deserializer<'a, 'b> {
     fn drop(&mut self) {
-        // Drop layers in reverse order.
-        while !self.stack.is_empty() {
-            self.stack.pop();
+        struct ReverseDrop<'c, T>(&'c mut Vec<T>);
+
+        impl<'c, T> Drop for ReverseDrop<'c, T> {
+            fn drop(&mut self) {
+                while !self.0.is_empty() {
+                    self.0.pop();
+                }
+            }
+        }
+
+        // Drop layers in reverse order. If dropping one of them panics, the
+        // guard drops the ones below it in reverse order too.
+        let guard = ReverseDrop(&mut self.stack);
+        while !guard.0.is_empty() {
+            guard.0.pop();
         }
     }
 }
-- 
2.43.0


From bec6e8e853b824684bd5e674f7bfb21962b8681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:44 +0000
Subject: [PATCH 2/2] fix: report an error when boxed content delivers no value

Deserialize for Box<T> unwrapped the slot of its content after the content's
visitor returned Ok. A user-written visitor that returns Ok without filling
its slot makes from_str return an error when it is used directly, in a struct
field, an array or a tuple, but inside a Box it panicked.
---
 src/de/impls.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/de/impls.rs b/src/de/impls.rs
index 4982912..9c6120c 100644
--- a/src/de/impls.rs
+++ b/src/de/impls.rs
@@ -170,42 +170,42 @@ where
             fn null(&mut self) -> Result<()> {
                 let mut out = None;
                 Deserialize::begin(&mut out).null()?;
-                self.out = Some(Box::new(out.unwrap()));
+                self.out = Some(Box::new(out.ok_or(Error)?));
                 Ok(())
             }
 
             fn boolean(&mut self, b: bool) -> Result<()> {
                 let mut out = None;
                 Deserialize::begin(&mut out).boolean(b)?;
-                self.out = Some(Box::new(out.unwrap()));
+                self.out = Some(Box::new(out.ok_or(Error)?));
                 Ok(())
             }
 
             fn string(&mut self, s: &str) -> Result<()> {
                 let mut out = None;
                 Deserialize::begin(&mut out).string(s)?;
-                self.out = Some(Box::new(out.unwrap()));
+                self.out = Some(Box::new(out.ok_or(Error)?));
                 Ok(())
             }
 
             fn negative(&mut self, n: i64) -> Result<()> {
                 let mut out = None;
                 Deserialize::begin(&mut out).negative(n)?;
-                self.out = Some(Box::new(out.unwrap()));
+                self.out = Some(Box::new(out.ok_or(Error)?));
                 Ok(())
             }
 
             fn nonnegative(&mut self, n: u64) -> Result<()> {
                 let mut out = None;
                 Deserialize::begin(&mut out).nonnegative(n)?;
-                self.out = Some(Box::new(out.unwrap()));
+                self.out = Some(Box::new(out.ok_or(Error)?));
                 Ok(())
             }
 
             fn float(&mut self, n: f64) -> Result<()> {
                 let mut out = None;
                 Deserialize::begin(&mut out).float(n)?;
-                self.out = Some(Box::new(out.unwrap()));
+                self.out = Some(Box::new(out.ok_or(Error)?));
                 Ok(())
             }
 
@@ -254,7 +254,7 @@ where
             fn finish(&mut self) -> Result<()> {
                 self.seq.finish()?;
                 *self.seq = Box::new(Ignore);
-                *self.out = Some(Box::new(self.value.take().unwrap()));
+                *self.out = Some(Box::new(self.value.take().ok_or(Error)?));
                 Ok(())
             }
         }
@@ -283,7 +283,7 @@ where
             fn finish(&mut self) -> Result<()> {
                 self.map.finish()?;
                 *self.map = Box::new(Ignore);
-                *self.out = Some(Box::new(self.value.take().unwrap()));
+                *self.out = Some(Box::new(self.value.take().ok_or(Error)?));
                 Ok(())
             }
         }
-- 
2.43.0

