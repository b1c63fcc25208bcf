From 8d2ee618e5cad5c3b319debe0bdf2820de1cbee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 01/17] fix: compact_vector::resize(n, value) when value refers
 to own element

Elements were moved to the new storage before the new elements were
copied from value, so the copies were made from a moved-from object.
---
 include/sfl/compact_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index a1dadd1..85b0ffd 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -842,6 +842,9 @@ public:
         {
             if (n > size())
             {
+                // Argument `value` may refer to an element of this container.
+                const value_type tmp(value);
+
                 new_last = sfl::dtl::uninitialized_move_if_noexcept_a
                 (
                     data_.ref_to_alloc(),
@@ -855,7 +858,7 @@ public:
                     data_.ref_to_alloc(),
                     new_last,
                     n - size(),
-                    value
+                    tmp
                 );
             }
             else if (n < size())
-- 
2.43.0


From 18e580928505ad7551348305aeccdc2577204e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 02/17] fix: devector::resize*(n, value) when value refers to
 own element

Growing the storage destroys the old elements before the new elements
are copied from value, so value was read after it had been destroyed.
---
 include/sfl/devector.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 9c33ae8..ef9ee93 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1014,6 +1014,9 @@ public:
                 }
                 else
                 {
+                    // Argument `value` may refer to an element of this container.
+                    const value_type tmp(value);
+
                     grow_storage_back(n - (available_front + size + available_back));
 
                     data_.last_ = sfl::dtl::uninitialized_fill_n_a
@@ -1021,7 +1024,7 @@ public:
                         data_.ref_to_alloc(),
                         data_.last_,
                         n - (size + available_front),
-                        value
+                        tmp
                     );
 
                     sfl::dtl::uninitialized_fill_a
@@ -1029,7 +1032,7 @@ public:
                         data_.ref_to_alloc(),
                         data_.bos_,
                         data_.first_,
-                        value
+                        tmp
                     );
 
                     data_.first_ = data_.bos_;
@@ -1096,6 +1099,9 @@ public:
         }
         else
         {
+            // Argument `value` may refer to an element of this container.
+            const value_type tmp(value);
+
             const size_type available_front = this->available_front();
 
             if (n > size + available_front)
@@ -1110,7 +1116,7 @@ public:
                 data_.ref_to_alloc(),
                 new_first,
                 data_.first_,
-                value
+                tmp
             );
 
             data_.first_ = new_first;
@@ -1171,6 +1177,9 @@ public:
         }
         else
         {
+            // Argument `value` may refer to an element of this container.
+            const value_type tmp(value);
+
             const size_type available_back = this->available_back();
 
             if (n > size + available_back)
@@ -1183,7 +1192,7 @@ public:
                 data_.ref_to_alloc(),
                 data_.last_,
                 n - size,
-                value
+                tmp
             );
         }
     }
-- 
2.43.0


From 1697cf8ad71e67e0f168ce0e53af112429dd2104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 03/17] fix: segmented containers swap allocators twice

With propagate_on_container_swap the allocators were swapped explicitly
and then swapped back together with the data they are a base of, so the
storage ended up with the wrong allocator.
---
 include/sfl/segmented_devector.hpp | 6 +++++-
 include/sfl/segmented_vector.hpp   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index 45cd92e..46ba5cf 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -1173,7 +1173,11 @@ public:
             swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
-        swap(this->data_, other.data_);
+        swap
+        (
+            static_cast<data_base&>(this->data_),
+            static_cast<data_base&>(other.data_)
+        );
     }
 
 private:
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index d5c9e50..38d4ddd 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -805,7 +805,11 @@ public:
             swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
-        swap(this->data_, other.data_);
+        swap
+        (
+            static_cast<data_base&>(this->data_),
+            static_cast<data_base&>(other.data_)
+        );
     }
 
 private:
-- 
2.43.0


From a2bce19ea011efd4702098d65c3360156d31105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 04/17] fix: segmented_devector::insert(range) forms iterator
 before table

last - n was computed even when fewer than n elements exist, which made
the segmented iterator read the segment table out of bounds.
---
 include/sfl/segmented_devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index 46ba5cf..da87308 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -2425,10 +2425,10 @@ private:
             }
 
             const iterator p1 = data_.first_ + dist_to_begin;
-            const iterator p2 = data_.last_ - n;
 
             if (dist_to_end > n)
             {
+                const iterator p2 = data_.last_ - n;
                 const iterator old_last = data_.last_;
 
                 data_.last_ = sfl::dtl::uninitialized_move_a
-- 
2.43.0


From ef074183532acd21c8f449edd1323b6dae041f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 05/17] fix: devector::insert(pos, n, value) when value refers
 to own element

Elements are shifted or moved to new storage before the new elements are
copied from value, so the copies were made from a moved-from or destroyed
object. Make a copy of value first, as the other containers do.
---
 include/sfl/devector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index ef9ee93..64675c7 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -4058,7 +4058,9 @@ private:
 
     iterator insert_fill_n(const_iterator pos, size_type n, const T& value)
     {
-        insert_fill_n_proxy proxy(value);
+        // Argument `value` may refer to an element of this container.
+        const value_type tmp(value);
+        insert_fill_n_proxy proxy(tmp);
         return insert_aux(pos, n, proxy);
     }
 
-- 
2.43.0


From 4e6ca7888e0871cbc15925da5d4026fcae82dc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 06/17] fix: devector deallocates storage with wrong pointer on
 assignment

reset() passed the address of the first element to deallocate instead of
the beginning of the storage, which is a different address whenever there
is free space at the front.
---
 include/sfl/devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 64675c7..b01232d 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1403,7 +1403,7 @@ private:
         sfl::dtl::deallocate
         (
             data_.ref_to_alloc(),
-            data_.first_,
+            data_.bos_,
             std::distance(data_.bos_, data_.eos_)
         );
 
-- 
2.43.0


From a55114127244241d8c2ae5fd79df43b817c2fb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 07/17] fix: small containers' swap moves elements before
 swapping allocators

If a move threw after the allocators were swapped, the dynamic block was
later returned to an allocator that does not compare equal to its owner.
---
 include/sfl/small_flat_map.hpp                | 21 +++++++++++--------
 include/sfl/small_flat_multimap.hpp           | 21 +++++++++++--------
 include/sfl/small_flat_multiset.hpp           | 21 +++++++++++--------
 include/sfl/small_flat_set.hpp                | 21 +++++++++++--------
 include/sfl/small_unordered_flat_map.hpp      | 21 +++++++++++--------
 include/sfl/small_unordered_flat_multimap.hpp | 21 +++++++++++--------
 include/sfl/small_unordered_flat_multiset.hpp | 21 +++++++++++--------
 include/sfl/small_unordered_flat_set.hpp      | 21 +++++++++++--------
 include/sfl/small_vector.hpp                  | 21 +++++++++++--------
 9 files changed, 108 insertions(+), 81 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index 181c486..cd25a87 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1081,11 +1081,9 @@ public:
         // can deallocate memory allocated by another allocator.
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
-
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
+        // Allocators are swapped last: If moving of elements throws then each
+        // container must still own allocator that allocated its memory. New
+        // elements are constructed by allocator that their container will get.
 
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
@@ -1109,7 +1107,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    this->data_.ref_to_alloc(),
+                    other.data_.ref_to_alloc(),
                     other.data_.first_ + this_size,
                     other.data_.first_ + other_size,
                     this->data_.first_ + this_size
@@ -1133,7 +1131,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    other.data_.ref_to_alloc(),
+                    this->data_.ref_to_alloc(),
                     this->data_.first_ + other_size,
                     this->data_.first_ + this_size,
                     other.data_.first_ + other_size
@@ -1162,7 +1160,7 @@ public:
 
             new_other_last = sfl::dtl::uninitialized_move_a
             (
-                other.data_.ref_to_alloc(),
+                this->data_.ref_to_alloc(),
                 this->data_.first_,
                 this->data_.last_,
                 new_other_first
@@ -1195,7 +1193,7 @@ public:
 
             new_this_last = sfl::dtl::uninitialized_move_a
             (
-                this->data_.ref_to_alloc(),
+                other.data_.ref_to_alloc(),
                 other.data_.first_,
                 other.data_.last_,
                 new_this_first
@@ -1222,6 +1220,11 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index d725df0..ca6c788 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -973,11 +973,9 @@ public:
         // can deallocate memory allocated by another allocator.
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
-
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
+        // Allocators are swapped last: If moving of elements throws then each
+        // container must still own allocator that allocated its memory. New
+        // elements are constructed by allocator that their container will get.
 
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
@@ -1001,7 +999,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    this->data_.ref_to_alloc(),
+                    other.data_.ref_to_alloc(),
                     other.data_.first_ + this_size,
                     other.data_.first_ + other_size,
                     this->data_.first_ + this_size
@@ -1025,7 +1023,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    other.data_.ref_to_alloc(),
+                    this->data_.ref_to_alloc(),
                     this->data_.first_ + other_size,
                     this->data_.first_ + this_size,
                     other.data_.first_ + other_size
@@ -1054,7 +1052,7 @@ public:
 
             new_other_last = sfl::dtl::uninitialized_move_a
             (
-                other.data_.ref_to_alloc(),
+                this->data_.ref_to_alloc(),
                 this->data_.first_,
                 this->data_.last_,
                 new_other_first
@@ -1087,7 +1085,7 @@ public:
 
             new_this_last = sfl::dtl::uninitialized_move_a
             (
-                this->data_.ref_to_alloc(),
+                other.data_.ref_to_alloc(),
                 other.data_.first_,
                 other.data_.last_,
                 new_this_first
@@ -1114,6 +1112,11 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index f9795fc..b427783 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -900,11 +900,9 @@ public:
         // can deallocate memory allocated by another allocator.
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
-
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
+        // Allocators are swapped last: If moving of elements throws then each
+        // container must still own allocator that allocated its memory. New
+        // elements are constructed by allocator that their container will get.
 
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
@@ -928,7 +926,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    this->data_.ref_to_alloc(),
+                    other.data_.ref_to_alloc(),
                     other.data_.first_ + this_size,
                     other.data_.first_ + other_size,
                     this->data_.first_ + this_size
@@ -952,7 +950,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    other.data_.ref_to_alloc(),
+                    this->data_.ref_to_alloc(),
                     this->data_.first_ + other_size,
                     this->data_.first_ + this_size,
                     other.data_.first_ + other_size
@@ -981,7 +979,7 @@ public:
 
             new_other_last = sfl::dtl::uninitialized_move_a
             (
-                other.data_.ref_to_alloc(),
+                this->data_.ref_to_alloc(),
                 this->data_.first_,
                 this->data_.last_,
                 new_other_first
@@ -1014,7 +1012,7 @@ public:
 
             new_this_last = sfl::dtl::uninitialized_move_a
             (
-                this->data_.ref_to_alloc(),
+                other.data_.ref_to_alloc(),
                 other.data_.first_,
                 other.data_.last_,
                 new_this_first
@@ -1041,6 +1039,11 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 11391a7..b757372 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -923,11 +923,9 @@ public:
         // can deallocate memory allocated by another allocator.
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
-
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
+        // Allocators are swapped last: If moving of elements throws then each
+        // container must still own allocator that allocated its memory. New
+        // elements are constructed by allocator that their container will get.
 
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
@@ -951,7 +949,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    this->data_.ref_to_alloc(),
+                    other.data_.ref_to_alloc(),
                     other.data_.first_ + this_size,
                     other.data_.first_ + other_size,
                     this->data_.first_ + this_size
@@ -975,7 +973,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    other.data_.ref_to_alloc(),
+                    this->data_.ref_to_alloc(),
                     this->data_.first_ + other_size,
                     this->data_.first_ + this_size,
                     other.data_.first_ + other_size
@@ -1004,7 +1002,7 @@ public:
 
             new_other_last = sfl::dtl::uninitialized_move_a
             (
-                other.data_.ref_to_alloc(),
+                this->data_.ref_to_alloc(),
                 this->data_.first_,
                 this->data_.last_,
                 new_other_first
@@ -1037,7 +1035,7 @@ public:
 
             new_this_last = sfl::dtl::uninitialized_move_a
             (
-                this->data_.ref_to_alloc(),
+                other.data_.ref_to_alloc(),
                 other.data_.first_,
                 other.data_.last_,
                 new_this_first
@@ -1064,6 +1062,11 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 88226e6..5bbd654 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1082,11 +1082,9 @@ public:
         // can deallocate memory allocated by another allocator.
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
-
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
+        // Allocators are swapped last: If moving of elements throws then each
+        // container must still own allocator that allocated its memory. New
+        // elements are constructed by allocator that their container will get.
 
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
@@ -1110,7 +1108,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    this->data_.ref_to_alloc(),
+                    other.data_.ref_to_alloc(),
                     other.data_.first_ + this_size,
                     other.data_.first_ + other_size,
                     this->data_.first_ + this_size
@@ -1134,7 +1132,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    other.data_.ref_to_alloc(),
+                    this->data_.ref_to_alloc(),
                     this->data_.first_ + other_size,
                     this->data_.first_ + this_size,
                     other.data_.first_ + other_size
@@ -1163,7 +1161,7 @@ public:
 
             new_other_last = sfl::dtl::uninitialized_move_a
             (
-                other.data_.ref_to_alloc(),
+                this->data_.ref_to_alloc(),
                 this->data_.first_,
                 this->data_.last_,
                 new_other_first
@@ -1196,7 +1194,7 @@ public:
 
             new_this_last = sfl::dtl::uninitialized_move_a
             (
-                this->data_.ref_to_alloc(),
+                other.data_.ref_to_alloc(),
                 other.data_.first_,
                 other.data_.last_,
                 new_this_first
@@ -1223,6 +1221,11 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index c8711e0..0118468 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -997,11 +997,9 @@ public:
         // can deallocate memory allocated by another allocator.
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
-
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
+        // Allocators are swapped last: If moving of elements throws then each
+        // container must still own allocator that allocated its memory. New
+        // elements are constructed by allocator that their container will get.
 
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
@@ -1025,7 +1023,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    this->data_.ref_to_alloc(),
+                    other.data_.ref_to_alloc(),
                     other.data_.first_ + this_size,
                     other.data_.first_ + other_size,
                     this->data_.first_ + this_size
@@ -1049,7 +1047,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    other.data_.ref_to_alloc(),
+                    this->data_.ref_to_alloc(),
                     this->data_.first_ + other_size,
                     this->data_.first_ + this_size,
                     other.data_.first_ + other_size
@@ -1078,7 +1076,7 @@ public:
 
             new_other_last = sfl::dtl::uninitialized_move_a
             (
-                other.data_.ref_to_alloc(),
+                this->data_.ref_to_alloc(),
                 this->data_.first_,
                 this->data_.last_,
                 new_other_first
@@ -1111,7 +1109,7 @@ public:
 
             new_this_last = sfl::dtl::uninitialized_move_a
             (
-                this->data_.ref_to_alloc(),
+                other.data_.ref_to_alloc(),
                 other.data_.first_,
                 other.data_.last_,
                 new_this_first
@@ -1138,6 +1136,11 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index 000660c..9e6c7c0 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -911,11 +911,9 @@ public:
         // can deallocate memory allocated by another allocator.
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
-
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
+        // Allocators are swapped last: If moving of elements throws then each
+        // container must still own allocator that allocated its memory. New
+        // elements are constructed by allocator that their container will get.
 
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
@@ -939,7 +937,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    this->data_.ref_to_alloc(),
+                    other.data_.ref_to_alloc(),
                     other.data_.first_ + this_size,
                     other.data_.first_ + other_size,
                     this->data_.first_ + this_size
@@ -963,7 +961,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    other.data_.ref_to_alloc(),
+                    this->data_.ref_to_alloc(),
                     this->data_.first_ + other_size,
                     this->data_.first_ + this_size,
                     other.data_.first_ + other_size
@@ -992,7 +990,7 @@ public:
 
             new_other_last = sfl::dtl::uninitialized_move_a
             (
-                other.data_.ref_to_alloc(),
+                this->data_.ref_to_alloc(),
                 this->data_.first_,
                 this->data_.last_,
                 new_other_first
@@ -1025,7 +1023,7 @@ public:
 
             new_this_last = sfl::dtl::uninitialized_move_a
             (
-                this->data_.ref_to_alloc(),
+                other.data_.ref_to_alloc(),
                 other.data_.first_,
                 other.data_.last_,
                 new_this_first
@@ -1052,6 +1050,11 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index fd52396..3cbaa9d 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -911,11 +911,9 @@ public:
         // can deallocate memory allocated by another allocator.
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
-
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
+        // Allocators are swapped last: If moving of elements throws then each
+        // container must still own allocator that allocated its memory. New
+        // elements are constructed by allocator that their container will get.
 
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
@@ -939,7 +937,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    this->data_.ref_to_alloc(),
+                    other.data_.ref_to_alloc(),
                     other.data_.first_ + this_size,
                     other.data_.first_ + other_size,
                     this->data_.first_ + this_size
@@ -963,7 +961,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    other.data_.ref_to_alloc(),
+                    this->data_.ref_to_alloc(),
                     this->data_.first_ + other_size,
                     this->data_.first_ + this_size,
                     other.data_.first_ + other_size
@@ -992,7 +990,7 @@ public:
 
             new_other_last = sfl::dtl::uninitialized_move_a
             (
-                other.data_.ref_to_alloc(),
+                this->data_.ref_to_alloc(),
                 this->data_.first_,
                 this->data_.last_,
                 new_other_first
@@ -1025,7 +1023,7 @@ public:
 
             new_this_last = sfl::dtl::uninitialized_move_a
             (
-                this->data_.ref_to_alloc(),
+                other.data_.ref_to_alloc(),
                 other.data_.first_,
                 other.data_.last_,
                 new_this_first
@@ -1052,6 +1050,11 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index 0d2c6b0..b52561e 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -1395,11 +1395,9 @@ public:
         // can deallocate memory allocated by another allocator.
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
-
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
+        // Allocators are swapped last: If moving of elements throws then each
+        // container must still own allocator that allocated its memory. New
+        // elements are constructed by allocator that their container will get.
 
         if
         (
@@ -1421,7 +1419,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    this->data_.ref_to_alloc(),
+                    other.data_.ref_to_alloc(),
                     other.data_.first_ + this_size,
                     other.data_.first_ + other_size,
                     this->data_.first_ + this_size
@@ -1445,7 +1443,7 @@ public:
 
                 sfl::dtl::uninitialized_move_a
                 (
-                    other.data_.ref_to_alloc(),
+                    this->data_.ref_to_alloc(),
                     this->data_.first_ + other_size,
                     this->data_.first_ + this_size,
                     other.data_.first_ + other_size
@@ -1474,7 +1472,7 @@ public:
 
             new_other_last = sfl::dtl::uninitialized_move_a
             (
-                other.data_.ref_to_alloc(),
+                this->data_.ref_to_alloc(),
                 this->data_.first_,
                 this->data_.last_,
                 new_other_first
@@ -1507,7 +1505,7 @@ public:
 
             new_this_last = sfl::dtl::uninitialized_move_a
             (
-                this->data_.ref_to_alloc(),
+                other.data_.ref_to_alloc(),
                 other.data_.first_,
                 other.data_.last_,
                 new_this_first
@@ -1534,6 +1532,11 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
 private:
-- 
2.43.0


From 551da3ddb693deea96575b3929f48b6b6b229129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 08/17] fix: compact_vector assignment releases its new block
 with correct size

If construction of an element threw, clear() deallocated the new block
with element count zero instead of the allocated count.
---
 include/sfl/compact_vector.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index 85b0ffd..2a09a42 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -1208,7 +1208,14 @@ private:
             }
             SFL_CATCH (...)
             {
-                clear();
+                sfl::dtl::deallocate
+                (
+                    data_.ref_to_alloc(),
+                    data_.first_,
+                    n
+                );
+                data_.first_ = nullptr;
+                data_.last_  = nullptr;
                 SFL_RETHROW;
             }
         }
@@ -1269,7 +1276,14 @@ private:
             }
             SFL_CATCH (...)
             {
-                clear();
+                sfl::dtl::deallocate
+                (
+                    data_.ref_to_alloc(),
+                    data_.first_,
+                    n
+                );
+                data_.first_ = nullptr;
+                data_.last_  = nullptr;
                 SFL_RETHROW;
             }
         }
-- 
2.43.0


From 1b40aad4e7c0fb007eb779916e0c93334cff1ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 09/17] fix: devector insertion rolls back exactly the elements
 it constructed

Two scope guards destroyed a wrong range when an element operation threw
while existing elements were being shifted inside the allocated storage.
---
 include/sfl/devector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index b01232d..78edf34 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -2752,7 +2752,7 @@ private:
                 );
 
                 const auto sg2 = sfl::dtl::make_scope_guard([&](){
-                    sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q10);
+                    sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q11);
                 });
 
                 if (p11 != q11)
@@ -3682,7 +3682,7 @@ private:
                     );
 
                     const auto sg1 = sfl::dtl::make_scope_guard([&](){
-                        sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q20);
+                        sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q11);
                     });
 
                     if (p11 != q11) // To avoid moving elements into themselves.
-- 
2.43.0


From 006c14127f10f24cc5050478e1ab3f1fe390972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:09 +0000
Subject: [PATCH 10/17] fix: static flat containers' assignment from
 initializer list keeps order and unique keys

---
 include/sfl/static_flat_map.hpp           | 3 ++-
 include/sfl/static_flat_multimap.hpp      | 3 ++-
 include/sfl/static_flat_multiset.hpp      | 3 ++-
 include/sfl/static_flat_set.hpp           | 3 ++-
 include/sfl/static_unordered_flat_map.hpp | 3 ++-
 include/sfl/static_unordered_flat_set.hpp | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index a2dd667..aea18f8 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -305,7 +305,8 @@ public:
 
     static_flat_map& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_multimap.hpp b/include/sfl/static_flat_multimap.hpp
index 6a95c67..b0355d5 100644
--- a/include/sfl/static_flat_multimap.hpp
+++ b/include/sfl/static_flat_multimap.hpp
@@ -305,7 +305,8 @@ public:
 
     static_flat_multimap& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_multiset.hpp b/include/sfl/static_flat_multiset.hpp
index 702f09a..c837b44 100644
--- a/include/sfl/static_flat_multiset.hpp
+++ b/include/sfl/static_flat_multiset.hpp
@@ -251,7 +251,8 @@ public:
 
     static_flat_multiset& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index 5fe031c..ee80b20 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -251,7 +251,8 @@ public:
 
     static_flat_set& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index e56f4b0..ad4f2a2 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -303,7 +303,8 @@ public:
 
     static_unordered_flat_map& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 5c61594..2419a8e 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -248,7 +248,8 @@ public:
 
     static_unordered_flat_set& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
-- 
2.43.0


From a21097aa3ccefe40b74dfc1fb0a0547fdce98541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:46 +0000
Subject: [PATCH 11/17] fix: unordered multi containers' erase(key) when key
 refers to own element

---
 include/sfl/small_unordered_flat_multimap.hpp | 31 ++++++++++++++++---
 include/sfl/small_unordered_flat_multiset.hpp | 31 ++++++++++++++++---
 .../sfl/static_unordered_flat_multimap.hpp    | 31 ++++++++++++++++---
 .../sfl/static_unordered_flat_multiset.hpp    | 31 ++++++++++++++++---
 4 files changed, 108 insertions(+), 16 deletions(-)

diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index 0118468..3da8d9f 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -940,17 +940,40 @@ public:
     {
         size_type n = 0;
 
+        // Parameter `key` may refer to an element of this container.
+        // That element is followed when it is moved, and it is erased last.
+        const Key* k = std::addressof(key);
+        auto self = begin();
+        bool found_self = false;
+
         for (auto it = begin(); it != end();)
         {
-            if (data_.ref_to_equal()(*it, key))
+            if (!data_.ref_to_equal()(*it, *k))
             {
-                it = erase(it);
-                ++n;
+                ++it;
             }
-            else
+            else if (std::addressof((*it).first) == k)
             {
+                self = it;
+                found_self = true;
                 ++it;
             }
+            else
+            {
+                if (std::addressof((*(data_.last_ - 1)).first) == k)
+                {
+                    k = std::addressof((*it).first);
+                }
+
+                it = erase(it);
+                ++n;
+            }
+        }
+
+        if (found_self)
+        {
+            erase(self);
+            ++n;
         }
 
         return n;
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index 9e6c7c0..fde3bbf 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -854,17 +854,40 @@ public:
     {
         size_type n = 0;
 
+        // Parameter `key` may refer to an element of this container.
+        // That element is followed when it is moved, and it is erased last.
+        const Key* k = std::addressof(key);
+        auto self = begin();
+        bool found_self = false;
+
         for (auto it = begin(); it != end();)
         {
-            if (data_.ref_to_equal()(*it, key))
+            if (!data_.ref_to_equal()(*it, *k))
             {
-                it = erase(it);
-                ++n;
+                ++it;
             }
-            else
+            else if (std::addressof(*it) == k)
             {
+                self = it;
+                found_self = true;
                 ++it;
             }
+            else
+            {
+                if (std::addressof(*(data_.last_ - 1)) == k)
+                {
+                    k = std::addressof(*it);
+                }
+
+                it = erase(it);
+                ++n;
+            }
+        }
+
+        if (found_self)
+        {
+            erase(self);
+            ++n;
         }
 
         return n;
diff --git a/include/sfl/static_unordered_flat_multimap.hpp b/include/sfl/static_unordered_flat_multimap.hpp
index 4356bcd..f72c391 100644
--- a/include/sfl/static_unordered_flat_multimap.hpp
+++ b/include/sfl/static_unordered_flat_multimap.hpp
@@ -587,17 +587,40 @@ public:
     {
         size_type n = 0;
 
+        // Parameter `key` may refer to an element of this container.
+        // That element is followed when it is moved, and it is erased last.
+        const Key* k = std::addressof(key);
+        auto self = begin();
+        bool found_self = false;
+
         for (auto it = begin(); it != end();)
         {
-            if (data_.ref_to_equal()(*it, key))
+            if (!data_.ref_to_equal()(*it, *k))
             {
-                it = erase(it);
-                ++n;
+                ++it;
             }
-            else
+            else if (std::addressof((*it).first) == k)
             {
+                self = it;
+                found_self = true;
                 ++it;
             }
+            else
+            {
+                if (std::addressof((*(data_.last_ - 1)).first) == k)
+                {
+                    k = std::addressof((*it).first);
+                }
+
+                it = erase(it);
+                ++n;
+            }
+        }
+
+        if (found_self)
+        {
+            erase(self);
+            ++n;
         }
 
         return n;
diff --git a/include/sfl/static_unordered_flat_multiset.hpp b/include/sfl/static_unordered_flat_multiset.hpp
index 26a1904..ddca644 100644
--- a/include/sfl/static_unordered_flat_multiset.hpp
+++ b/include/sfl/static_unordered_flat_multiset.hpp
@@ -499,17 +499,40 @@ public:
     {
         size_type n = 0;
 
+        // Parameter `key` may refer to an element of this container.
+        // That element is followed when it is moved, and it is erased last.
+        const Key* k = std::addressof(key);
+        auto self = begin();
+        bool found_self = false;
+
         for (auto it = begin(); it != end();)
         {
-            if (data_.ref_to_equal()(*it, key))
+            if (!data_.ref_to_equal()(*it, *k))
             {
-                it = erase(it);
-                ++n;
+                ++it;
             }
-            else
+            else if (std::addressof(*it) == k)
             {
+                self = it;
+                found_self = true;
                 ++it;
             }
+            else
+            {
+                if (std::addressof(*(data_.last_ - 1)) == k)
+                {
+                    k = std::addressof(*it);
+                }
+
+                it = erase(it);
+                ++n;
+            }
+        }
+
+        if (found_self)
+        {
+            erase(self);
+            ++n;
         }
 
         return n;
-- 
2.43.0


From f1c1d2b52c67e59b796c9ba762440340f1a7b87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:46 +0000
Subject: [PATCH 12/17] fix: static_unordered_flat_multiset lacks documented
 data()

---
 include/sfl/static_unordered_flat_multiset.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/sfl/static_unordered_flat_multiset.hpp b/include/sfl/static_unordered_flat_multiset.hpp
index ddca644..d427daa 100644
--- a/include/sfl/static_unordered_flat_multiset.hpp
+++ b/include/sfl/static_unordered_flat_multiset.hpp
@@ -739,6 +739,18 @@ public:
     // ---- ELEMENT ACCESS ----------------------------------------------------
     //
 
+    SFL_NODISCARD
+    value_type* data() noexcept
+    {
+        return data_.first_;
+    }
+
+    SFL_NODISCARD
+    const value_type* data() const noexcept
+    {
+        return data_.first_;
+    }
+
 private:
 
     template <typename ForwardIt,
-- 
2.43.0


From c72fa8d536e36ba8d620dfa8e584412044f62f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:31 +0000
Subject: [PATCH 13/17] fix: unordered containers' emplace leaves duplicate key
 when key equality throws

---
 include/sfl/small_unordered_flat_map.hpp  | 11 +++++++++++
 include/sfl/small_unordered_flat_set.hpp  | 11 +++++++++++
 include/sfl/static_unordered_flat_map.hpp | 11 +++++++++++
 include/sfl/static_unordered_flat_set.hpp | 11 +++++++++++
 4 files changed, 44 insertions(+)

diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 5bbd654..cb093be 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1736,8 +1736,19 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
+
+        auto guard = sfl::dtl::make_scope_guard
+        (
+            [this]()
+            {
+                pop_back();
+            }
+        );
+
         const auto it2 = find(it1->first);
 
+        guard.dismiss();
+
         const bool is_unique = it1 == it2;
 
         if (!is_unique)
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index 3cbaa9d..4757557 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1489,8 +1489,19 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
+
+        auto guard = sfl::dtl::make_scope_guard
+        (
+            [this]()
+            {
+                pop_back();
+            }
+        );
+
         const auto it2 = find(*it1);
 
+        guard.dismiss();
+
         const bool is_unique = it1 == it2;
 
         if (!is_unique)
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index ad4f2a2..e65a2cd 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -1022,8 +1022,19 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
+
+        auto guard = sfl::dtl::make_scope_guard
+        (
+            [this]()
+            {
+                pop_back();
+            }
+        );
+
         const auto it2 = find(it1->first);
 
+        guard.dismiss();
+
         const bool is_unique = it1 == it2;
 
         if (!is_unique)
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 2419a8e..0f33bc5 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -764,8 +764,19 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
+
+        auto guard = sfl::dtl::make_scope_guard
+        (
+            [this]()
+            {
+                pop_back();
+            }
+        );
+
         const auto it2 = find(*it1);
 
+        guard.dismiss();
+
         const bool is_unique = it1 == it2;
 
         if (!is_unique)
-- 
2.43.0


From e375dd6d26e4b827d89949071927356c348dda87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:36 +0000
Subject: [PATCH 14/17] fix: segmented containers' shrink_to_fit keeps
 iterators when capacity is unchanged

---
 include/sfl/segmented_devector.hpp | 11 +++++++++++
 include/sfl/segmented_vector.hpp   |  7 +++++++
 2 files changed, 18 insertions(+)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index da87308..bf99686 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -1507,6 +1507,17 @@ private:
     //
     void shrink_storage()
     {
+        if
+        (
+            data_.first_.segment_ == data_.table_first_ &&
+            data_.last_.segment_ + 1 == data_.table_last_
+        )
+        {
+            // There are no empty segments and capacity will not change.
+            // Iterators must remain valid so the table must not be changed.
+            return;
+        }
+
         // Destroy empty segments at front.
         {
             const segment_pointer new_table_first = data_.first_.segment_;
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index 38d4ddd..fb744be 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -1041,6 +1041,13 @@ private:
     //
     void shrink_storage()
     {
+        if (data_.last_.segment_ + 1 == data_.table_last_)
+        {
+            // There are no empty segments and capacity will not change.
+            // Iterators must remain valid so the table must not be changed.
+            return;
+        }
+
         // Destroy empty segments.
         {
             const segment_pointer new_table_last = data_.last_.segment_ + 1;
-- 
2.43.0


From f91237c19248cbb20cf27a121affc600de493092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:49 +0000
Subject: [PATCH 15/17] fix: erase_if of sorted containers is linear as
 documented

---
 include/sfl/private.hpp              | 57 ++++++++++++++++++++++++++++
 include/sfl/small_flat_map.hpp       | 16 +-------
 include/sfl/small_flat_multimap.hpp  | 16 +-------
 include/sfl/small_flat_multiset.hpp  | 16 +-------
 include/sfl/small_flat_set.hpp       | 16 +-------
 include/sfl/static_flat_map.hpp      | 16 +-------
 include/sfl/static_flat_multimap.hpp | 16 +-------
 include/sfl/static_flat_multiset.hpp | 16 +-------
 include/sfl/static_flat_set.hpp      | 16 +-------
 9 files changed, 65 insertions(+), 120 deletions(-)

diff --git a/include/sfl/private.hpp b/include/sfl/private.hpp
index 9c03194..1df58d3 100644
--- a/include/sfl/private.hpp
+++ b/include/sfl/private.hpp
@@ -2496,6 +2496,63 @@ scope_guard<Lambda> make_scope_guard(Lambda&& lambda)
     return scope_guard<Lambda>(std::forward<Lambda>(lambda));
 }
 
+///////////////////////////////////////////////////////////////////////////////
+///////////////////////////////////////////////////////////////////////////////
+// ERASE_IF FOR SORTED CONTAINERS
+///////////////////////////////////////////////////////////////////////////////
+///////////////////////////////////////////////////////////////////////////////
+
+// Erases all elements that satisfy the predicate in a single pass.
+// The relative order of remaining elements is preserved.
+
+template <typename Container, typename Predicate>
+typename Container::size_type
+erase_if_sorted(Container& c, Predicate& pred)
+{
+    using size_type = typename Container::size_type;
+
+    const auto first = c.begin();
+    const auto data  = c.data();
+
+    const size_type size = c.size();
+
+    size_type dest = 0;
+
+    while (dest != size && !pred(first[dest]))
+    {
+        ++dest;
+    }
+
+    if (dest == size)
+    {
+        return 0;
+    }
+
+    // Elements in range [dest, curr) are either matched or moved-from.
+    size_type curr = dest + 1;
+
+    SFL_TRY
+    {
+        for (; curr != size; ++curr)
+        {
+            if (!pred(first[curr]))
+            {
+                data[dest] = std::move(data[curr]);
+                ++dest;
+            }
+        }
+    }
+    SFL_CATCH (...)
+    {
+        c.erase(first + dest, first + curr);
+        SFL_RETHROW;
+    }
+
+    c.erase(first + dest, first + size);
+
+    return size - dest;
+}
+
 } // namespace dtl
 
 ///////////////////////////////////////////////////////////////////////////////
diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index cd25a87..293f3b2 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -2184,21 +2184,7 @@ template <typename K, typename T, std::size_t N, typename C, typename A,
 typename small_flat_map<K, T, N, C, A>::size_type
     erase_if(small_flat_map<K, T, N, C, A>& c, Predicate pred)
 {
-    auto old_size = c.size();
-
-    for (auto it = c.begin(); it != c.end(); )
-    {
-        if (pred(*it))
-        {
-            it = c.erase(it);
-        }
-        else
-        {
-            ++it;
-        }
-    }
-
-    return old_size - c.size();
+    return sfl::dtl::erase_if_sorted(c, pred);
 }
 
 } // namespace sfl
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index ca6c788..2fc5826 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -1922,21 +1922,7 @@ template <typename K, typename T, std::size_t N, typename C, typename A,
 typename small_flat_multimap<K, T, N, C, A>::size_type
     erase_if(small_flat_multimap<K, T, N, C, A>& c, Predicate pred)
 {
-    auto old_size = c.size();
-
-    for (auto it = c.begin(); it != c.end(); )
-    {
-        if (pred(*it))
-        {
-            it = c.erase(it);
-        }
-        else
-        {
-            ++it;
-        }
-    }
-
-    return old_size - c.size();
+    return sfl::dtl::erase_if_sorted(c, pred);
 }
 
 } // namespace sfl
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index b427783..eb723e5 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -1848,21 +1848,7 @@ template <typename K, std::size_t N, typename C, typename A, typename Predicate>
 typename small_flat_multiset<K, N, C, A>::size_type
 erase_if(small_flat_multiset<K, N, C, A>& c, Predicate pred)
 {
-    auto old_size = c.size();
-
-    for (auto it = c.begin(); it != c.end(); )
-    {
-        if (pred(*it))
-        {
-            it = c.erase(it);
-        }
-        else
-        {
-            ++it;
-        }
-    }
-
-    return old_size - c.size();
+    return sfl::dtl::erase_if_sorted(c, pred);
 }
 
 } // namespace sfl
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index b757372..8d1f13a 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -1880,21 +1880,7 @@ template <typename K, std::size_t N, typename C, typename A,
 typename small_flat_set<K, N, C, A>::size_type
     erase_if(small_flat_set<K, N, C, A>& c, Predicate pred)
 {
-    auto old_size = c.size();
-
-    for (auto it = c.begin(); it != c.end(); )
-    {
-        if (pred(*it))
-        {
-            it = c.erase(it);
-        }
-        else
-        {
-            ++it;
-        }
-    }
-
-    return old_size - c.size();
+    return sfl::dtl::erase_if_sorted(c, pred);
 }
 
 } // namespace sfl
diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index aea18f8..17f43d8 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -1361,21 +1361,7 @@ template <typename K, typename T, std::size_t N, typename C, typename Predicate>
 typename static_flat_map<K, T, N, C>::size_type
     erase_if(static_flat_map<K, T, N, C>& c, Predicate pred)
 {
-    auto old_size = c.size();
-
-    for (auto it = c.begin(); it != c.end(); )
-    {
-        if (pred(*it))
-        {
-            it = c.erase(it);
-        }
-        else
-        {
-            ++it;
-        }
-    }
-
-    return old_size - c.size();
+    return sfl::dtl::erase_if_sorted(c, pred);
 }
 
 } // namespace sfl
diff --git a/include/sfl/static_flat_multimap.hpp b/include/sfl/static_flat_multimap.hpp
index b0355d5..fe204d6 100644
--- a/include/sfl/static_flat_multimap.hpp
+++ b/include/sfl/static_flat_multimap.hpp
@@ -1087,21 +1087,7 @@ template <typename K, typename T, std::size_t N, typename C, typename Predicate>
 typename static_flat_multimap<K, T, N, C>::size_type
     erase_if(static_flat_multimap<K, T, N, C>& c, Predicate pred)
 {
-    auto old_size = c.size();
-
-    for (auto it = c.begin(); it != c.end(); )
-    {
-        if (pred(*it))
-        {
-            it = c.erase(it);
-        }
-        else
-        {
-            ++it;
-        }
-    }
-
-    return old_size - c.size();
+    return sfl::dtl::erase_if_sorted(c, pred);
 }
 
 } // namespace sfl
diff --git a/include/sfl/static_flat_multiset.hpp b/include/sfl/static_flat_multiset.hpp
index c837b44..32b7fae 100644
--- a/include/sfl/static_flat_multiset.hpp
+++ b/include/sfl/static_flat_multiset.hpp
@@ -1011,21 +1011,7 @@ template <typename K, std::size_t N, typename C, typename Predicate>
 typename static_flat_multiset<K, N, C>::size_type
 erase_if(static_flat_multiset<K, N, C>& c, Predicate pred)
 {
-    auto old_size = c.size();
-
-    for (auto it = c.begin(); it != c.end(); )
-    {
-        if (pred(*it))
-        {
-            it = c.erase(it);
-        }
-        else
-        {
-            ++it;
-        }
-    }
-
-    return old_size - c.size();
+    return sfl::dtl::erase_if_sorted(c, pred);
 }
 
 } // namespace sfl
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index ee80b20..550bc0a 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -1044,21 +1044,7 @@ template <typename K, std::size_t N, typename C, typename Predicate>
 typename static_flat_set<K, N, C>::size_type
     erase_if(static_flat_set<K, N, C>& c, Predicate pred)
 {
-    auto old_size = c.size();
-
-    for (auto it = c.begin(); it != c.end(); )
-    {
-        if (pred(*it))
-        {
-            it = c.erase(it);
-        }
-        else
-        {
-            ++it;
-        }
-    }
-
-    return old_size - c.size();
+    return sfl::dtl::erase_if_sorted(c, pred);
 }
 
 } // namespace sfl
-- 
2.43.0


From 6f331226d141584afe9c0ca5d075d2a73175ad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:45 +0000
Subject: [PATCH 16/17] fix: segmented containers grow beyond max_size instead
 of throwing length_error

Capacity is always k * N - 1, so max_size() has to be a number of that form
and no more segments than needed may be allocated; otherwise capacity could
exceed max_size() and max_size() - capacity() would wrap around.
---
 include/sfl/segmented_devector.hpp | 8 ++++++--
 include/sfl/segmented_vector.hpp   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index bf99686..fce0035 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -399,11 +399,15 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        const size_type max_elements = std::min<size_type>
         (
             allocator_traits::max_size(data_.ref_to_alloc()),
             std::numeric_limits<difference_type>::max() / sizeof(value_type)
         );
+
+        // Capacity is always equal to k * N - 1 where k is number of segments,
+        // so that is the biggest number of elements that can be stored.
+        return max_elements < N ? 0 : max_elements / N * N - 1;
     }
 
     SFL_NODISCARD
@@ -1425,7 +1429,7 @@ private:
 
         // Required capacity at the back of table
         const size_type table_required_back =
-            num_additional_elements / N + 1;
+            num_additional_elements / N + (num_additional_elements % N == 0 ? 0 : 1);
 
         // Available capacity at the back of table
         const size_type table_available_back =
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index fb744be..a8d8f15 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -411,11 +411,15 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        const size_type max_elements = std::min<size_type>
         (
             allocator_traits::max_size(data_.ref_to_alloc()),
             std::numeric_limits<difference_type>::max() / sizeof(value_type)
         );
+
+        // Capacity is always equal to k * N - 1 where k is number of segments,
+        // so that is the biggest number of elements that can be stored.
+        return max_elements < N ? 0 : max_elements / N * N - 1;
     }
 
     SFL_NODISCARD
@@ -966,7 +970,7 @@ private:
 
         // Required capacity of table
         const size_type table_required =
-            num_additional_elements / N + 1;
+            num_additional_elements / N + (num_additional_elements % N == 0 ? 0 : 1);
 
         // Available capacity of table
         const size_type table_available =
-- 
2.43.0


From c65525c493480dcd1c74c5ac385b0198d3a3e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:00 +0000
Subject: [PATCH 17/17] fix: keep the comparator when copying the elements
 fails in assignment of small associative containers

The comparator (or key equality) was replaced before the elements, so a
refused or failed assignment left the old elements with the new comparator.
---
 include/sfl/small_flat_map.hpp                | 8 ++++----
 include/sfl/small_flat_multimap.hpp           | 8 ++++----
 include/sfl/small_flat_multiset.hpp           | 8 ++++----
 include/sfl/small_flat_set.hpp                | 8 ++++----
 include/sfl/small_unordered_flat_map.hpp      | 8 ++++----
 include/sfl/small_unordered_flat_multimap.hpp | 8 ++++----
 include/sfl/small_unordered_flat_multiset.hpp | 8 ++++----
 include/sfl/small_unordered_flat_set.hpp      | 8 ++++----
 8 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index 293f3b2..23e7f6b 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1761,9 +1761,9 @@ private:
                 data_.ref_to_alloc() = other.data_.ref_to_alloc();
             }
 
-            data_.ref_to_comp() = other.data_.ref_to_comp();
-
             assign_range(other.data_.first_, other.data_.last_);
+
+            data_.ref_to_comp() = other.data_.ref_to_comp();
         }
     }
 
@@ -1779,8 +1779,6 @@ private:
             data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
         }
 
-        data_.ref_to_comp() = other.data_.ref_to_comp();
-
         if (other.data_.first_ == other.data_.internal_storage())
         {
             assign_range
@@ -1809,6 +1807,8 @@ private:
                 std::make_move_iterator(other.data_.last_)
             );
         }
+
+        data_.ref_to_comp() = other.data_.ref_to_comp();
     }
 
     template <typename Value>
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index 2fc5826..21536f8 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -1579,9 +1579,9 @@ private:
                 data_.ref_to_alloc() = other.data_.ref_to_alloc();
             }
 
-            data_.ref_to_comp() = other.data_.ref_to_comp();
-
             assign_range(other.data_.first_, other.data_.last_);
+
+            data_.ref_to_comp() = other.data_.ref_to_comp();
         }
     }
 
@@ -1597,8 +1597,6 @@ private:
             data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
         }
 
-        data_.ref_to_comp() = other.data_.ref_to_comp();
-
         if (other.data_.first_ == other.data_.internal_storage())
         {
             assign_range
@@ -1627,6 +1625,8 @@ private:
                 std::make_move_iterator(other.data_.last_)
             );
         }
+
+        data_.ref_to_comp() = other.data_.ref_to_comp();
     }
 
     template <typename Value>
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index eb723e5..b2febe5 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -1506,9 +1506,9 @@ private:
                 data_.ref_to_alloc() = other.data_.ref_to_alloc();
             }
 
-            data_.ref_to_comp() = other.data_.ref_to_comp();
-
             assign_range(other.data_.first_, other.data_.last_);
+
+            data_.ref_to_comp() = other.data_.ref_to_comp();
         }
     }
 
@@ -1524,8 +1524,6 @@ private:
             data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
         }
 
-        data_.ref_to_comp() = other.data_.ref_to_comp();
-
         if (other.data_.first_ == other.data_.internal_storage())
         {
             assign_range
@@ -1554,6 +1552,8 @@ private:
                 std::make_move_iterator(other.data_.last_)
             );
         }
+
+        data_.ref_to_comp() = other.data_.ref_to_comp();
     }
 
     template <typename Value>
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 8d1f13a..f311ac4 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -1527,9 +1527,9 @@ private:
                 data_.ref_to_alloc() = other.data_.ref_to_alloc();
             }
 
-            data_.ref_to_comp() = other.data_.ref_to_comp();
-
             assign_range(other.data_.first_, other.data_.last_);
+
+            data_.ref_to_comp() = other.data_.ref_to_comp();
         }
     }
 
@@ -1545,8 +1545,6 @@ private:
             data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
         }
 
-        data_.ref_to_comp() = other.data_.ref_to_comp();
-
         if (other.data_.first_ == other.data_.internal_storage())
         {
             assign_range
@@ -1575,6 +1573,8 @@ private:
                 std::make_move_iterator(other.data_.last_)
             );
         }
+
+        data_.ref_to_comp() = other.data_.ref_to_comp();
     }
 
     template <typename Value>
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index cb093be..a17cfde 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1682,9 +1682,9 @@ private:
                 data_.ref_to_alloc() = other.data_.ref_to_alloc();
             }
 
-            data_.ref_to_equal() = other.data_.ref_to_equal();
-
             assign_range(other.data_.first_, other.data_.last_);
+
+            data_.ref_to_equal() = other.data_.ref_to_equal();
         }
     }
 
@@ -1700,8 +1700,6 @@ private:
             data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
         }
 
-        data_.ref_to_equal() = other.data_.ref_to_equal();
-
         if (other.data_.first_ == other.data_.internal_storage())
         {
             assign_range
@@ -1730,6 +1728,8 @@ private:
                 std::make_move_iterator(other.data_.last_)
             );
         }
+
+        data_.ref_to_equal() = other.data_.ref_to_equal();
     }
 
     template <typename... Args>
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index 3da8d9f..51e50f6 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -1564,9 +1564,9 @@ private:
                 data_.ref_to_alloc() = other.data_.ref_to_alloc();
             }
 
-            data_.ref_to_equal() = other.data_.ref_to_equal();
-
             assign_range(other.data_.first_, other.data_.last_);
+
+            data_.ref_to_equal() = other.data_.ref_to_equal();
         }
     }
 
@@ -1582,8 +1582,6 @@ private:
             data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
         }
 
-        data_.ref_to_equal() = other.data_.ref_to_equal();
-
         if (other.data_.first_ == other.data_.internal_storage())
         {
             assign_range
@@ -1612,6 +1610,8 @@ private:
                 std::make_move_iterator(other.data_.last_)
             );
         }
+
+        data_.ref_to_equal() = other.data_.ref_to_equal();
     }
 
     template <typename... Args>
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index fde3bbf..a343dda 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -1478,9 +1478,9 @@ private:
                 data_.ref_to_alloc() = other.data_.ref_to_alloc();
             }
 
-            data_.ref_to_equal() = other.data_.ref_to_equal();
-
             assign_range(other.data_.first_, other.data_.last_);
+
+            data_.ref_to_equal() = other.data_.ref_to_equal();
         }
     }
 
@@ -1496,8 +1496,6 @@ private:
             data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
         }
 
-        data_.ref_to_equal() = other.data_.ref_to_equal();
-
         if (other.data_.first_ == other.data_.internal_storage())
         {
             assign_range
@@ -1526,6 +1524,8 @@ private:
                 std::make_move_iterator(other.data_.last_)
             );
         }
+
+        data_.ref_to_equal() = other.data_.ref_to_equal();
     }
 
     template <typename... Args>
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index 4757557..6116100 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1435,9 +1435,9 @@ private:
                 data_.ref_to_alloc() = other.data_.ref_to_alloc();
             }
 
-            data_.ref_to_equal() = other.data_.ref_to_equal();
-
             assign_range(other.data_.first_, other.data_.last_);
+
+            data_.ref_to_equal() = other.data_.ref_to_equal();
         }
     }
 
@@ -1453,8 +1453,6 @@ private:
             data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
         }
 
-        data_.ref_to_equal() = other.data_.ref_to_equal();
-
         if (other.data_.first_ == other.data_.internal_storage())
         {
             assign_range
@@ -1483,6 +1481,8 @@ private:
                 std::make_move_iterator(other.data_.last_)
             );
         }
+
+        data_.ref_to_equal() = other.data_.ref_to_equal();
     }
 
     template <typename... Args>
-- 
2.43.0

