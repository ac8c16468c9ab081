From 4ecc2527c010136abf89c507be1a7f15a19c95f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:09 +0000
Subject: [PATCH 1/5] fix: iterate bounded ranges up to the ends of the element
 type

Stepping the iterator past the greatest (or below the least) value of the
element type panicked in debug builds and never ended in release builds, so
(0u8..=255) and (0usize..3) reversed could not be iterated to the end, and an
empty range at an extreme panicked in into_iter.
---
 src/bounded_range.rs | 64 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 10 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index ea68456..c5873b3 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -90,14 +90,24 @@ where
     type Item = T;
     fn into_iter(self) -> Self::IntoIter {
         let current = match self.start {
-            LowerBound(Bound::Excluded(t)) => Step::forward(t, 1),
+            LowerBound(Bound::Excluded(t)) => match Step::forward_checked(t, 1) {
+                Some(t) => t,
+                None => return BoundedRangeIter::exhausted(t),
+            },
             LowerBound(Bound::Included(t)) => t,
         };
         let last = match self.end {
-            UpperBound(Bound::Excluded(t)) => Step::backward(t, 1),
+            UpperBound(Bound::Excluded(t)) => match Step::backward_checked(t, 1) {
+                Some(t) => t,
+                None => return BoundedRangeIter::exhausted(t),
+            },
             UpperBound(Bound::Included(t)) => t,
         };
-        BoundedRangeIter { current, last }
+        BoundedRangeIter {
+            current,
+            last,
+            exhausted: false,
+        }
     }
 }
 
@@ -167,6 +177,25 @@ impl<T: Copy + Ord> BoundedRange<T> {
 pub struct BoundedRangeIter<T> {
     current: T,
     last: T,
+    // Set once there is no value of `T` left to move `current` or `last` to.
+    exhausted: bool,
+}
+
+impl<T> BoundedRangeIter<T>
+where
+    T: Copy + Ord + Step,
+{
+    fn exhausted(t: T) -> Self {
+        Self {
+            current: t,
+            last: t,
+            exhausted: true,
+        }
+    }
+
+    pub(crate) fn is_exhausted(&self) -> bool {
+        self.exhausted || self.current > self.last
+    }
 }
 
 impl<T> Iterator for BoundedRangeIter<T>
@@ -176,16 +205,22 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current > self.last {
+        if self.is_exhausted() {
             None
         } else {
             let t = self.current;
-            self.current = Step::forward(self.current, 1);
+            match Step::forward_checked(self.current, 1) {
+                Some(next) => self.current = next,
+                None => self.exhausted = true,
+            }
             Some(t)
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
+        if self.exhausted {
+            return (0, Some(0));
+        }
         let size = Step::steps_between(&self.current, &self.last)
             .map(|steps| steps + 1)
             .unwrap_or_default();
@@ -200,7 +235,7 @@ where
     where
         Self: Sized,
     {
-        if self.current > self.last {
+        if self.is_exhausted() {
             None
         } else {
             Some(self.last)
@@ -208,7 +243,10 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current = Step::forward(self.current, n);
+        match Step::forward_checked(self.current, n) {
+            Some(current) => self.current = current,
+            None => self.exhausted = true,
+        }
         self.next()
     }
 
@@ -226,17 +264,23 @@ where
     T: Copy + Ord + Step,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.current > self.last {
+        if self.is_exhausted() {
             None
         } else {
             let t = self.last;
-            self.last = Step::backward(self.last, 1);
+            match Step::backward_checked(self.last, 1) {
+                Some(next) => self.last = next,
+                None => self.exhausted = true,
+            }
             Some(t)
         }
     }
 
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        self.last = Step::backward(self.last, n);
+        match Step::backward_checked(self.last, n) {
+            Some(last) => self.last = last,
+            None => self.exhausted = true,
+        }
         self.next_back()
     }
 }
-- 
2.43.0


From 246fe615c2903efd6be9542ce7cdace5d3b5513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:12 +0000
Subject: [PATCH 2/5] fix: do not report a wrong length for ranges with more
 than usize::MAX elements

steps_between is None both for an empty range and for one whose length does
not fit usize; the latter was reported (and skipped by the set iterator) as
having no elements, and a length of exactly usize::MAX + 1 overflowed.
---
 src/bounded_range.rs     |  7 +++----
 src/bounded_set.rs       | 17 ++++++++++-------
 src/lower_bounded_set.rs |  2 +-
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index c5873b3..cca0e3b 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -218,13 +218,12 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        if self.exhausted {
+        if self.is_exhausted() {
             return (0, Some(0));
         }
         let size = Step::steps_between(&self.current, &self.last)
-            .map(|steps| steps + 1)
-            .unwrap_or_default();
-        (size, Some(size))
+            .and_then(|steps| steps.checked_add(1));
+        (size.unwrap_or(usize::MAX), size)
     }
 
     fn count(self) -> usize {
diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index 21cd260..b3ed25a 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -124,7 +124,7 @@ where
         while self
             .range_iters
             .front()
-            .map(|i| i.len() == 0)
+            .map(|i| i.is_exhausted())
             .unwrap_or(false)
         {
             self.range_iters.pop_front();
@@ -133,8 +133,11 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.range_iters.iter().map(|i| i.len()).sum();
-        (size, Some(size))
+        let size = self
+            .range_iters
+            .iter()
+            .try_fold(0usize, |size, i| size.checked_add(i.size_hint().1?));
+        (size.unwrap_or(usize::MAX), size)
     }
 
     fn count(self) -> usize
@@ -151,7 +154,7 @@ where
         while self
             .range_iters
             .back()
-            .map(|i| i.len() == 0)
+            .map(|i| i.is_exhausted())
             .unwrap_or(false)
         {
             self.range_iters.pop_back();
@@ -160,7 +163,7 @@ where
     }
 
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
-        while let Some(len) = self.range_iters.front().map(|i| i.len()) {
+        while let Some(len) = self.range_iters.front().and_then(|i| i.size_hint().1) {
             if len <= n {
                 n -= len;
                 self.range_iters.remove(0);
@@ -188,7 +191,7 @@ where
         while self
             .range_iters
             .back()
-            .map(|i| i.len() == 0)
+            .map(|i| i.is_exhausted())
             .unwrap_or(false)
         {
             self.range_iters.pop_back();
@@ -197,7 +200,7 @@ where
     }
 
     fn nth_back(&mut self, mut n: usize) -> Option<Self::Item> {
-        while let Some(len) = self.range_iters.back_mut().map(|i| i.len()) {
+        while let Some(len) = self.range_iters.back().and_then(|i| i.size_hint().1) {
             if len <= n {
                 n -= len;
                 self.range_iters.pop_back();
diff --git a/src/lower_bounded_set.rs b/src/lower_bounded_set.rs
index 0485aa5..dcb9da6 100644
--- a/src/lower_bounded_set.rs
+++ b/src/lower_bounded_set.rs
@@ -127,7 +127,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        let bounded_size = self.set_iter.len();
+        let bounded_size = self.set_iter.size_hint().0;
         self.set_iter
             .nth(n)
             .or_else(|| self.range_iter.nth(n - bounded_size))
-- 
2.43.0


From 740f0c0c55f6505d0d0172e7552b22d4f2a8556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:28 +0000
Subject: [PATCH 3/5] fix: convert empty ranges at the ends of the element type
 to empty std ranges

RangeInclusive::from(EmptyRange::<u32>::new()) panicked (and gave
0..=u32::MAX in release builds), as did bounded ranges such as
LowerBound::excluded(MAX).. or ..UpperBound::excluded(MIN).
---
 src/bounded_range.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index cca0e3b..8a5bae0 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -54,7 +54,10 @@ where
 {
     fn from(r: BoundedRange<T>) -> Self {
         let start = match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Excluded(t) => match Step::forward_checked(t, 1) {
+                Some(start) => start,
+                None => return t..t,
+            },
             Bound::Included(t) => t,
         };
         let end = match r.end.to_bound() {
@@ -71,11 +74,17 @@ where
 {
     fn from(r: BoundedRange<T>) -> Self {
         let start = match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Excluded(t) => match Step::forward_checked(t, 1) {
+                Some(start) => start,
+                None => return t..=Step::backward(t, 1),
+            },
             Bound::Included(t) => t,
         };
         let end = match r.end.to_bound() {
-            Bound::Excluded(t) => Step::backward(t, 1),
+            Bound::Excluded(t) => match Step::backward_checked(t, 1) {
+                Some(end) => end,
+                None => return Step::forward(t, 1)..=t,
+            },
             Bound::Included(t) => t,
         };
         start..=end
-- 
2.43.0


From 31a9b7c1a25214823d70badc0daefd77eef1c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 4/5] fix: keep bounded pieces of the right operand when
 intersecting lower-bounded sets

Elements covered by the unbounded piece of the left operand and by a bounded
piece of the right one were lost: (0..1 | 5..) & (7..8 | 10..) did not
contain 7.
---
 src/implementations/intersection/lower_bounded_set.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/implementations/intersection/lower_bounded_set.rs b/src/implementations/intersection/lower_bounded_set.rs
index 4a4b4bc..b7454f9 100644
--- a/src/implementations/intersection/lower_bounded_set.rs
+++ b/src/implementations/intersection/lower_bounded_set.rs
@@ -51,11 +51,9 @@ where
 {
     type Output = LowerBoundedSet<T>;
     fn intersection(self, other: R) -> Self::Output {
-        let mut set = RangeIntersection::intersection(
-            self.clone(),
-            other.clone().to_inner().lower_bounded_range,
-        );
-        set.add_set(RangeIntersection::intersection(self.ranges, other));
+        let other = other.to_inner();
+        let mut set = RangeIntersection::intersection(self.clone(), other.lower_bounded_range);
+        set.add_set(RangeIntersection::intersection(self, other.ranges));
         set
     }
 }
-- 
2.43.0


From 45ec776f61928ca588250796f429cbca927dbb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:08 +0000
Subject: [PATCH 5/5] fix: conversions to std ranges wrapped around in release
 builds

---
 src/bounded_range.rs       | 4 +++-
 src/lower_bounded_range.rs | 4 +++-
 src/upper_bounded_range.rs | 8 ++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index 8a5bae0..619c648 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -62,7 +62,9 @@ where
         };
         let end = match r.end.to_bound() {
             Bound::Excluded(t) => t,
-            Bound::Included(t) => Step::forward(t, 1),
+            Bound::Included(t) => {
+                Step::forward_checked(t, 1).expect("range end does not fit a half-open range")
+            }
         };
         start..end
     }
diff --git a/src/lower_bounded_range.rs b/src/lower_bounded_range.rs
index 1c7fb91..92e6638 100644
--- a/src/lower_bounded_range.rs
+++ b/src/lower_bounded_range.rs
@@ -36,7 +36,9 @@ where
 {
     fn from(r: LowerBoundedRange<T>) -> Self {
         match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1)..,
+            Bound::Excluded(t) => {
+                Step::forward_checked(t, 1).expect("range start is past the last element")..
+            }
             Bound::Included(t) => t..,
         }
     }
diff --git a/src/upper_bounded_range.rs b/src/upper_bounded_range.rs
index 33bbbf5..16c57f4 100644
--- a/src/upper_bounded_range.rs
+++ b/src/upper_bounded_range.rs
@@ -44,7 +44,9 @@ where
     fn from(r: UpperBoundedRange<T>) -> Self {
         match r.end.to_bound() {
             Bound::Excluded(t) => ..t,
-            Bound::Included(t) => ..Step::forward(t, 1),
+            Bound::Included(t) => {
+                ..Step::forward_checked(t, 1).expect("range end does not fit a half-open range")
+            }
         }
     }
 }
@@ -55,7 +57,9 @@ where
 {
     fn from(r: UpperBoundedRange<T>) -> Self {
         match r.end.to_bound() {
-            Bound::Excluded(t) => ..=Step::backward(t, 1),
+            Bound::Excluded(t) => {
+                ..=Step::backward_checked(t, 1).expect("range end is before the first element")
+            }
             Bound::Included(t) => ..=t,
         }
     }
-- 
2.43.0

