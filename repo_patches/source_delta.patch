From c0a7b6d2b319ffc5ad72cf9fa740e509e386c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:47 +0000
Subject: [PATCH 1/7] fix: emit a single entry for each nested sequence when
 extracting from sval

A nested element that itself contained nested sequences pushed one
entry for every level below it, so the extracted collection had more
entries than the sequence has elements.
---
 src/internal/sval/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/sval/v2.rs b/src/internal/sval/v2.rs
index 5c9a100..60efffc 100644
--- a/src/internal/sval/v2.rs
+++ b/src/internal/sval/v2.rs
@@ -583,7 +583,7 @@ pub(crate) mod seq {
             // Treat nested complex values as null
             // This ensures an upstream visitor sees them, but won't
             // be able to convert them into anything meaningful
-            if self.depth > 1 {
+            if self.depth == 2 {
                 if let Some(ref mut seq) = self.seq {
                     seq.extend_borrowed(ValueBag::from(()).inner);
                 }
-- 
2.43.0


From 7dc0a953f2cd111a4607efdee4be3d6f94e34dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:51 +0000
Subject: [PATCH 2/7] fix: return borrowed errors from shared owned values

An owned error stopped being readable as an error once it was made
shared, because the view over a shared error wasn't considered when
borrowing.
---
 src/internal/error.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internal/error.rs b/src/internal/error.rs
index 75ee76c..03c23f8 100644
--- a/src/internal/error.rs
+++ b/src/internal/error.rs
@@ -31,6 +31,8 @@ impl<'v> ValueBag<'v> {
         match self.inner {
             Internal::Error(value) => Some(value.as_super()),
             Internal::AnonError(value) => Some(value),
+            #[cfg(feature = "owned")]
+            Internal::SharedRefError(value) => Some(value.as_super()),
             _ => None,
         }
     }
-- 
2.43.0


From 198fffcccd1b5a05495ec6f696ebd2e92682163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:51 +0000
Subject: [PATCH 3/7] fix: poison the owned value when filling it fails

Buffering a value whose fill callback returned an error produced an
owned value that reads as empty, hiding the failure.
---
 src/internal/owned.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/internal/owned.rs b/src/internal/owned.rs
index dda0638..6e14554 100644
--- a/src/internal/owned.rs
+++ b/src/internal/owned.rs
@@ -379,7 +379,9 @@ impl<'v> Internal<'v> {
 
         let mut visitor = OwnedVisitor(OwnedInternal::None);
 
-        let _ = self.internal_visit(&mut visitor);
+        if self.internal_visit(&mut visitor).is_err() {
+            return OwnedInternal::Poisoned("failed to buffer the value");
+        }
 
         visitor.0
     }
-- 
2.43.0


From fdcd682407c909658e95c75a603b5bf07d2b1799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:14 +0000
Subject: [PATCH 4/7] fix: don't panic when buffering a value whose formatter
 fails

Buffering a failing Debug or Display panicked unless inline strings
were enabled, and buffering a failing error always panicked. Use the
same marker text as the inline implementation in all configurations.
---
 src/internal/error.rs |  7 +++++--
 src/internal/fmt.rs   | 16 +++++++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/internal/error.rs b/src/internal/error.rs
index 03c23f8..98b22ec 100644
--- a/src/internal/error.rs
+++ b/src/internal/error.rs
@@ -76,7 +76,10 @@ pub use self::error::Error;
 
 #[cfg(feature = "owned")]
 pub(crate) mod owned {
-    use crate::std::{boxed::Box, error, fmt, string::ToString};
+    use crate::{
+        internal,
+        std::{boxed::Box, error, fmt},
+    };
 
     #[derive(Clone, Debug)]
     pub(crate) struct OwnedError {
@@ -102,7 +105,7 @@ pub(crate) mod owned {
 
     pub(crate) fn buffer(err: &(dyn error::Error + 'static)) -> OwnedError {
         OwnedError {
-            display: err.to_string().into(),
+            display: internal::fmt::owned::buffer_boxed(err),
             source: err.source().map(buffer).map(Box::new),
         }
     }
diff --git a/src/internal/fmt.rs b/src/internal/fmt.rs
index ba88e11..533e8a1 100644
--- a/src/internal/fmt.rs
+++ b/src/internal/fmt.rs
@@ -420,7 +420,7 @@ pub(crate) mod owned {
         }
         #[cfg(not(feature = "inline-str"))]
         {
-            Err(OwnedFmt(format!("{v:?}").into()))
+            Err(OwnedFmt(buffer_boxed(format_args!("{v:?}"))))
         }
     }
 
@@ -431,9 +431,19 @@ pub(crate) mod owned {
         }
         #[cfg(not(feature = "inline-str"))]
         {
-            use crate::std::string::ToString as _;
+            Err(OwnedFmt(buffer_boxed(v)))
+        }
+    }
+
+    // A formatter that fails is buffered as a marker instead of panicking
+    #[cfg(any(not(feature = "inline-str"), feature = "error"))]
+    pub(crate) fn buffer_boxed(v: impl fmt::Display) -> Box<str> {
+        use crate::std::{fmt::Write as _, string::String};
 
-            Err(OwnedFmt(v.to_string().into()))
+        let mut buf = String::new();
+        match write!(&mut buf, "{v}") {
+            Ok(()) => buf.into_boxed_str(),
+            Err(err) => format!("<{err}>").into_boxed_str(),
         }
     }
 
-- 
2.43.0


From 651388e7aebebb0ad6b85df0e565d5818cf3a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:02 +0000
Subject: [PATCH 5/7] fix: return the visitor's own error when visiting
 structured values

An error returned by a visitor callback was taken to mean that a value
captured with sval or serde isn't a primitive. The visitor was then
called a second time through its fallback and its error was lost.
---
 src/visit.rs | 106 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 77 insertions(+), 29 deletions(-)

diff --git a/src/visit.rs b/src/visit.rs
index 346550d..9672cb6 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -234,7 +234,52 @@ impl<'v> ValueBag<'v> {
     /// It's useful for simple cases where a full framework like `serde` or `sval`
     /// isn't necessary.
     pub fn visit(&self, visitor: impl Visit<'v>) -> Result<(), Error> {
-        struct Visitor<V>(V);
+        struct Visitor<V> {
+            visitor: V,
+            structured: bool,
+            result: Option<Result<(), Error>>,
+        }
+
+        impl<V> Visitor<V> {
+            fn primitive(
+                &mut self,
+                visit: impl FnOnce(&mut V) -> Result<(), Error>,
+            ) -> Result<(), Error> {
+                let result = visit(&mut self.visitor);
+
+                if !self.structured {
+                    return result;
+                }
+
+                // Structured values can't carry the visitor's own error through
+                // so it's kept here instead
+                let is_ok = result.is_ok();
+                self.result = Some(result);
+
+                if is_ok {
+                    Ok(())
+                } else {
+                    Err(Error::msg("failed to visit the value"))
+                }
+            }
+
+            // Try visit a structured value as a primitive
+            // If this method returns `None` then the visitor hasn't been called
+            #[cfg(any(feature = "sval2", feature = "serde1"))]
+            fn structured(
+                &mut self,
+                visit: impl FnOnce(&mut Self) -> bool,
+            ) -> Option<Result<(), Error>> {
+                self.structured = true;
+                let complete = visit(self);
+                self.structured = false;
+
+                match self.result.take() {
+                    Some(Ok(())) if !complete => Some(Err(Error::msg("failed to visit the value"))),
+                    result => result,
+                }
+            }
+        }
 
         impl<'v, V> InternalVisitor<'v> for Visitor<V>
         where
@@ -245,56 +290,56 @@ impl<'v> ValueBag<'v> {
             }
 
             fn debug(&mut self, v: &dyn internal::fmt::Debug) -> Result<(), Error> {
-                self.0.visit_any(ValueBag::from_dyn_debug(v))
+                self.visitor.visit_any(ValueBag::from_dyn_debug(v))
             }
 
             fn display(&mut self, v: &dyn internal::fmt::Display) -> Result<(), Error> {
-                self.0.visit_any(ValueBag::from_dyn_display(v))
+                self.visitor.visit_any(ValueBag::from_dyn_display(v))
             }
 
             fn u64(&mut self, v: u64) -> Result<(), Error> {
-                self.0.visit_u64(v)
+                self.primitive(|visitor| visitor.visit_u64(v))
             }
 
             fn i64(&mut self, v: i64) -> Result<(), Error> {
-                self.0.visit_i64(v)
+                self.primitive(|visitor| visitor.visit_i64(v))
             }
 
             fn u128(&mut self, v: &u128) -> Result<(), Error> {
-                self.0.visit_u128(*v)
+                self.primitive(|visitor| visitor.visit_u128(*v))
             }
 
             fn i128(&mut self, v: &i128) -> Result<(), Error> {
-                self.0.visit_i128(*v)
+                self.primitive(|visitor| visitor.visit_i128(*v))
             }
 
             fn f64(&mut self, v: f64) -> Result<(), Error> {
-                self.0.visit_f64(v)
+                self.primitive(|visitor| visitor.visit_f64(v))
             }
 
             fn bool(&mut self, v: bool) -> Result<(), Error> {
-                self.0.visit_bool(v)
+                self.primitive(|visitor| visitor.visit_bool(v))
             }
 
             fn char(&mut self, v: char) -> Result<(), Error> {
-                self.0.visit_char(v)
+                self.primitive(|visitor| visitor.visit_char(v))
             }
 
             fn str(&mut self, v: &str) -> Result<(), Error> {
-                self.0.visit_str(v)
+                self.primitive(|visitor| visitor.visit_str(v))
             }
 
             fn borrowed_str(&mut self, v: &'v str) -> Result<(), Error> {
-                self.0.visit_borrowed_str(v)
+                self.primitive(|visitor| visitor.visit_borrowed_str(v))
             }
 
             fn none(&mut self) -> Result<(), Error> {
-                self.0.visit_empty()
+                self.primitive(|visitor| visitor.visit_empty())
             }
 
             #[cfg(feature = "error")]
             fn error(&mut self, v: &(dyn internal::error::Error + 'static)) -> Result<(), Error> {
-                self.0.visit_error(v)
+                self.visitor.visit_error(v)
             }
 
             #[cfg(feature = "error")]
@@ -302,15 +347,14 @@ impl<'v> ValueBag<'v> {
                 &mut self,
                 v: &'v (dyn internal::error::Error + 'static),
             ) -> Result<(), Error> {
-                self.0.visit_borrowed_error(v)
+                self.visitor.visit_borrowed_error(v)
             }
 
             #[cfg(feature = "sval2")]
             fn sval2(&mut self, v: &dyn internal::sval::v2::Value) -> Result<(), Error> {
-                if internal::sval::v2::internal_visit(v, self) {
-                    Ok(())
-                } else {
-                    self.0.visit_any(ValueBag::from_dyn_sval2(v))
+                match self.structured(|visitor| internal::sval::v2::internal_visit(v, visitor)) {
+                    Some(result) => result,
+                    None => self.visitor.visit_any(ValueBag::from_dyn_sval2(v)),
                 }
             }
 
@@ -319,25 +363,25 @@ impl<'v> ValueBag<'v> {
                 &mut self,
                 v: &'v dyn internal::sval::v2::Value,
             ) -> Result<(), Error> {
-                if internal::sval::v2::borrowed_internal_visit(v, self) {
-                    Ok(())
-                } else {
-                    self.0.visit_any(ValueBag::from_dyn_sval2(v))
+                match self
+                    .structured(|visitor| internal::sval::v2::borrowed_internal_visit(v, visitor))
+                {
+                    Some(result) => result,
+                    None => self.visitor.visit_any(ValueBag::from_dyn_sval2(v)),
                 }
             }
 
             #[cfg(feature = "serde1")]
             fn serde1(&mut self, v: &dyn internal::serde::v1::Serialize) -> Result<(), Error> {
-                if internal::serde::v1::internal_visit(v, self) {
-                    Ok(())
-                } else {
-                    self.0.visit_any(ValueBag::from_dyn_serde1(v))
+                match self.structured(|visitor| internal::serde::v1::internal_visit(v, visitor)) {
+                    Some(result) => result,
+                    None => self.visitor.visit_any(ValueBag::from_dyn_serde1(v)),
                 }
             }
 
             #[cfg(feature = "seq")]
             fn seq(&mut self, v: &dyn internal::seq::Seq) -> Result<(), Error> {
-                self.0.visit_any(ValueBag::from_dyn_seq(v))
+                self.visitor.visit_any(ValueBag::from_dyn_seq(v))
             }
 
             fn poisoned(&mut self, msg: &'static str) -> Result<(), Error> {
@@ -345,7 +389,11 @@ impl<'v> ValueBag<'v> {
             }
         }
 
-        self.internal_visit(&mut Visitor(visitor))
+        self.internal_visit(&mut Visitor {
+            visitor,
+            structured: false,
+            result: None,
+        })
     }
 }
 
-- 
2.43.0


From e27324e8b8e709ae268ba62c001b6ae3991be57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:08 +0000
Subject: [PATCH 6/7] fix: downcast shared sequences to the captured value

A sequence captured with capture_shared_seq_slice could only be downcast
to a private wrapper type, so downcasting never found the captured value.
---
 src/internal/seq.rs | 20 ++++++++++----------
 src/owned.rs        | 18 +++++++++++++++++-
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/internal/seq.rs b/src/internal/seq.rs
index 3eaae2f..95964a3 100644
--- a/src/internal/seq.rs
+++ b/src/internal/seq.rs
@@ -265,16 +265,6 @@ pub(crate) trait DowncastSeq {
     fn as_super(&self) -> &dyn Seq;
 }
 
-impl<T: Seq + 'static> DowncastSeq for T {
-    fn as_any(&self) -> &dyn Any {
-        self
-    }
-
-    fn as_super(&self) -> &dyn Seq {
-        self
-    }
-}
-
 impl<'a> Seq for dyn DowncastSeq + Send + Sync + 'a {
     fn visit(&self, visitor: &mut dyn Visitor<'_>) {
         self.as_super().visit(visitor)
@@ -593,6 +583,16 @@ pub(crate) mod owned {
         }
     }
 
+    impl DowncastSeq for OwnedSeq {
+        fn as_any(&self) -> &dyn Any {
+            self
+        }
+
+        fn as_super(&self) -> &dyn Seq {
+            self
+        }
+    }
+
     pub(crate) fn buffer(v: &dyn Seq) -> Result<OwnedSeq, Error> {
         struct BufferVisitor(Vec<OwnedValueBag>);
 
diff --git a/src/owned.rs b/src/owned.rs
index 7491de7..3851c2c 100644
--- a/src/owned.rs
+++ b/src/owned.rs
@@ -120,7 +120,7 @@ impl ValueBag<'static> {
     {
         use crate::{
             internal::seq::Visitor,
-            std::{marker::PhantomData, ops::ControlFlow},
+            std::{any::Any, marker::PhantomData, ops::ControlFlow},
         };
 
         struct OwnedSeqSlice<I: ?Sized, T>(PhantomData<[T]>, I);
@@ -139,6 +139,22 @@ impl ValueBag<'static> {
             }
         }
 
+        impl<I, T> internal::seq::DowncastSeq for OwnedSeqSlice<I, T>
+        where
+            I: AsRef<[T]> + 'static,
+            T: 'static,
+            for<'v> &'v T: Into<ValueBag<'v>>,
+        {
+            // Downcasting is to the captured value, not to this wrapper
+            fn as_any(&self) -> &dyn Any {
+                &self.1
+            }
+
+            fn as_super(&self) -> &dyn internal::seq::Seq {
+                self
+            }
+        }
+
         Self::try_capture_owned(&value).unwrap_or(ValueBag {
             inner: Internal::SharedSeq(Arc::new(OwnedSeqSlice(PhantomData, value))),
         })
-- 
2.43.0


From ce7b79bfcc3020d647fbb2ef2a1709c9dd0272d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:36 +0000
Subject: [PATCH 7/7] fix: return the serializer's own error when serializing a
 value fails

---
 src/error.rs             | 13 -------------
 src/internal/serde/v1.rs | 17 ++++++-----------
 2 files changed, 6 insertions(+), 24 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 76da461..4948041 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -21,19 +21,6 @@ impl Error {
             inner: Inner::Msg(msg),
         }
     }
-
-    #[cfg(feature = "serde1")]
-    pub(crate) fn try_boxed(msg: &'static str, e: impl fmt::Display) -> Self {
-        #[cfg(feature = "std")]
-        {
-            Error::boxed(format!("{msg}: {e}"))
-        }
-        #[cfg(not(feature = "std"))]
-        {
-            let _ = e;
-            Error::msg(msg)
-        }
-    }
 }
 
 impl fmt::Display for Error {
diff --git a/src/internal/serde/v1.rs b/src/internal/serde/v1.rs
index 8ee44f8..d47049a 100644
--- a/src/internal/serde/v1.rs
+++ b/src/internal/serde/v1.rs
@@ -136,7 +136,8 @@ impl<'v> value_bag_serde1::lib::Serialize for ValueBag<'v> {
             fn result(&self) -> Result<(), Error> {
                 match self.result {
                     Some(Ok(_)) => Ok(()),
-                    Some(Err(ref e)) => Err(Error::serde(e)),
+                    // The error may not be formattable here, so it's kept for `into_result`
+                    Some(Err(_)) => Err(Error::msg("`serde` serialization failed")),
                     None => Err(Error::msg("`serde` serialization didn't produce a result")),
                 }
             }
@@ -264,10 +265,10 @@ impl<'v> value_bag_serde1::lib::Serialize for ValueBag<'v> {
             result: None,
         };
 
-        self.internal_visit(&mut visitor)
-            .map_err(S::Error::custom)?;
-
-        visitor.into_result()
+        match self.internal_visit(&mut visitor) {
+            Err(e) if !matches!(visitor.result, Some(Err(_))) => Err(S::Error::custom(e)),
+            _ => visitor.into_result(),
+        }
     }
 }
 
@@ -513,12 +514,6 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
     value_bag_serde1::erased::serialize(v, VisitorSerializer(visitor)).is_ok()
 }
 
-impl Error {
-    fn serde(e: impl fmt::Display) -> Self {
-        Error::try_boxed("`serde` serialization failed", e)
-    }
-}
-
 #[derive(Debug)]
 struct Unsupported;
 
-- 
2.43.0

