From c4340b01ff1c4b00b65e3c97d23fd76fb3a23f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 001/134] fix: il::Array allocates the requested capacity when
 it grows an aligned array

---
 il/container/1d/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index dea1df1..b48a761 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -947,7 +947,7 @@ void Array<T>::IncreaseCapacity(il::int_t r) {
     new_data = il::allocateArray<T>(r);
     new_shift = 0;
   } else {
-    new_data = il::allocateArray<T>(n, align_r_, align_mod_, il::io, new_shift);
+    new_data = il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
   }
   if (data_) {
     if (il::isTrivial<T>::value) {
-- 
2.43.0


From cc84bfa2fba7d4174e00082f4159c2626887f1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 002/134] fix: il::Array copy assignment constructs the
 elements it adds within the capacity

---
 il/container/1d/Array.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index b48a761..f12365c 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -585,11 +585,16 @@ Array<T>& Array<T>::operator=(const Array<T>& v) {
     if (il::isTrivial<T>::value) {
       memcpy(data_, v.data_, n * sizeof(T));
     } else {
-      for (il::int_t i = 0; i < n; ++i) {
+      const il::int_t n_old = size();
+      const il::int_t n_common = n < n_old ? n : n_old;
+      for (il::int_t i = n_old - 1; i >= n; --i) {
+        (data_ + i)->~T();
+      }
+      for (il::int_t i = 0; i < n_common; ++i) {
         data_[i] = v.data_[i];
       }
-      for (il::int_t i = size() - 1; i >= n; --i) {
-        (data_ + i)->~T();
+      for (il::int_t i = n_old; i < n; ++i) {
+        new (data_ + i) T(v.data_[i]);
       }
     }
     size_ = data_ + n;
-- 
2.43.0


From dda95b52b2599bb9a1523e7bf4e359fcea1ea1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 003/134] fix: il::Array::Set only assigns the elements of the
 array

---
 il/container/1d/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index f12365c..34e53fc 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -665,7 +665,7 @@ T& Array<T>::operator[](il::int_t i) {
 
 template <typename T>
 void Array<T>::Set(const T& x) {
-  for (il::int_t i = 0; i < capacity_ - data_; ++i) {
+  for (il::int_t i = 0; i < size(); ++i) {
     data_[i] = x;
   }
 }
-- 
2.43.0


From a685cebb77670544f1239ba9e6560fb3167c6d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 004/134] fix: il::Array::Append moves an element of the array
 when it has to grow

---
 il/container/1d/Array.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 34e53fc..fa81b2e 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -838,13 +838,14 @@ void Array<T>::Append(T&& x) {
     if (error) {
       il::abort();
     }
+    // x might be an element of the array: it moves with the storage
+    const bool inside = &x >= data_ && &x < size_;
+    const il::int_t i = inside ? &x - data_ : 0;
     IncreaseCapacity(new_capacity);
+    new (size_) T(std::move(inside ? data_[i] : x));
+  } else {
+    new (size_) T(std::move(x));
   }
-  //  if (il::isTrivial<T>::value) {
-  //    *size_ = std::move(x);
-  //  } else {
-  new (size_) T(std::move(x));
-  //  }
   ++size_;
 }
 
-- 
2.43.0


From ae13987952058138864d356861c4784274e88249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 005/134] fix: il::Array::Resize accepts an element of the
 array as the fill value

---
 il/container/1d/Array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index fa81b2e..ff8c35a 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -745,14 +745,15 @@ void Array<T>::Resize(il::int_t n, const T& x) {
     }
   } else {
     const il::int_t n_old = size();
+    const T x_copy = x;
     IncreaseCapacity(n);
     if (il::isTrivial<T>::value) {
       for (il::int_t i = n_old; i < n; ++i) {
-        data_[i] = x;
+        data_[i] = x_copy;
       }
     } else {
       for (il::int_t i = n_old; i < n; ++i) {
-        new (data_ + i) T{x};
+        new (data_ + i) T{x_copy};
       }
     }
   }
-- 
2.43.0


From 19def2504907b4788245e04dfc785746885cc162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 006/134] fix: il::SmallArray copy assignment constructs the
 elements it adds within the capacity

---
 il/container/1d/SmallArray.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index bc51f0a..847b479 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -367,14 +367,19 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       size_ = data_ + n;
       capacity_ = data_ + n;
     } else {
+      const il::int_t n_old = size();
+      const il::int_t n_common = n < n_old ? n : n_old;
       if (!il::isTrivial<T>::value) {
-        for (il::int_t i = size() - 1; i >= n; --i) {
+        for (il::int_t i = n_old - 1; i >= n; --i) {
           (data_ + i)->~T();
         }
       }
-      for (il::int_t i = 0; i < n; ++i) {
+      for (il::int_t i = 0; i < n_common; ++i) {
         data_[i] = A.data_[i];
       }
+      for (il::int_t i = n_old; i < n; ++i) {
+        new (data_ + i) T(A.data_[i]);
+      }
       size_ = data_ + n;
     }
   }
-- 
2.43.0


From fc03ce26b32c7fc8216a3358e198f106dcdc4af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 007/134] fix: il::SmallArray move assignment empties its
 source, not its target

---
 il/container/1d/SmallArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index 847b479..3242e55 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -410,7 +410,7 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       } else {
         for (il::int_t i = n - 1; i >= 0; --i) {
           new (data_ + i) T(std::move(A.data_[i]));
-          (data_ + i)->~T();
+          (A.data_ + i)->~T();
         }
       }
       size_ = data_ + n;
@@ -420,7 +420,7 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       size_ = A.size_;
       capacity_ = A.capacity_;
     }
-    data_ = reinterpret_cast<T*>(small_data_);
+    A.data_ = reinterpret_cast<T*>(A.small_data_);
     A.size_ = A.data_ + 0;
     A.capacity_ = A.data_ + small_size;
   }
-- 
2.43.0


From 047dc85005fe06be6b45d84a792f76366ec711f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 008/134] fix: il::SmallArray::Resize keeps the elements that
 stay in the array

---
 il/container/1d/SmallArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index 3242e55..fa40822 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -484,7 +484,7 @@ void SmallArray<T, small_size>::Resize(il::int_t n) {
       }
 #endif
     } else {
-      for (il::int_t i = size() - 1; i >= 0; --i) {
+      for (il::int_t i = size() - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
       for (il::int_t i = size(); i < n; ++i) {
-- 
2.43.0


From 8c0a3b2309baca734ead8a6636f3aa4ccc9323b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 009/134] fix: il::SmallArray::Append accepts an element of the
 array when it has to grow

---
 il/container/1d/SmallArray.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index fa40822..c4439b8 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -555,9 +555,12 @@ void SmallArray<T, small_size>::Append(Args&&... args) {
     if (error) {
       il::abort();
     }
+    T x = T(args...);
     IncreaseCapacity(new_capacity);
-  };
-  new (size_) T(args...);
+    new (size_) T(std::move(x));
+  } else {
+    new (size_) T(args...);
+  }
   ++size_;
 }
 
-- 
2.43.0


From 6da64828e9d2d67210b3c4ec16d8d76fe202076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 010/134] fix: il::Array2D column views use the stride of the
 array and check their range

---
 il/container/2d/Array2D.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index a7a9b78..95db544 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1270,7 +1270,15 @@ il::Array2DView<T> Array2D<T>::view() const {
 
 template <typename T>
 il::ArrayView<T> Array2D<T>::view(il::Range range0, il::int_t i1) const {
-  return il::ArrayView<T>{data() + i1 * size(0) + range0.begin,
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.begin) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.end) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(range0.begin <= range0.end);
+  IL_EXPECT_FAST(static_cast<std::size_t>(i1) <
+                 static_cast<std::size_t>(size(1)));
+
+  return il::ArrayView<T>{data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
 
-- 
2.43.0


From c11a1d3f439d7b39d6fa3fe50d7b02303ff0770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 011/134] fix: il::Array2D::Edit of a column range compiles and
 checks its range

---
 il/container/2d/Array2D.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 95db544..8b97eee 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1329,7 +1329,15 @@ il::Array2DEdit<T> Array2D<T>::Edit(il::Range range0, il::Range range1) {
 
 template <typename T>
 il::ArrayEdit<T> Array2D<T>::Edit(il::Range range0, il::int_t i1) {
-  return il::ArrayEdit<T>{data() + i1 * stride(1) + range0.begin,
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.begin) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.end) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(range0.begin <= range0.end);
+  IL_EXPECT_FAST(static_cast<std::size_t>(i1) <
+                 static_cast<std::size_t>(size(1)));
+
+  return il::ArrayEdit<T>{Data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
 
-- 
2.43.0


From c40d8927fa977f285083d3942e39201b98b9b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:59 +0000
Subject: [PATCH 012/134] fix: copy assignment of multi-dimensional arrays
 constructs the elements it adds within the capacity

---
 il/container/2d/Array2C.h | 7 ++++++-
 il/container/2d/Array2D.h | 7 ++++++-
 il/container/3d/Array3C.h | 7 ++++++-
 il/container/3d/Array3D.h | 7 ++++++-
 il/container/4d/Array4C.h | 9 ++++++---
 il/container/4d/Array4D.h | 9 ++++++---
 6 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index d00efa3..e1df4e8 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -707,7 +707,12 @@ Array2C<T>& Array2C<T>::operator=(const Array2C<T>& A) {
       } else {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
-            data_[i0 * capacity(1) + i1] = A(i0, i1);
+            T* const element = data_ + i0 * capacity(1) + i1;
+            if (i0 < size(0) && i1 < size(1)) {
+              *element = A(i0, i1);
+            } else {
+              new (element) T(A(i0, i1));
+            }
           }
         }
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 8b97eee..f482773 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -755,7 +755,12 @@ Array2D<T>& Array2D<T>::operator=(const Array2D<T>& A) {
       } else {
         for (il::int_t i1 = 0; i1 < n1; ++i1) {
           for (il::int_t i0 = 0; i0 < n0; ++i0) {
-            data_[i1 * capacity(0) + i0] = A(i0, i1);
+            T* const element = data_ + i1 * capacity(0) + i0;
+            if (i0 < size(0) && i1 < size(1)) {
+              *element = A(i0, i1);
+            } else {
+              new (element) T(A(i0, i1));
+            }
           }
         }
         for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 4545d0a..3c4d959 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -811,7 +811,12 @@ Array3C<T>& Array3C<T>::operator=(const Array3C<T>& A) {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i2 = 0; i2 < n2; ++i2) {
-              data_[(i0 * capacity(1) + i1) * capacity(2) + i2] = A(i0, i1, i2);
+              T* const element = data_ + (i0 * capacity(1) + i1) * capacity(2) + i2;
+              if (i0 < size(0) && i1 < size(1) && i2 < size(2)) {
+                *element = A(i0, i1, i2);
+              } else {
+                new (element) T(A(i0, i1, i2));
+              }
             }
           }
         }
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index c7fddc9..be72902 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -811,7 +811,12 @@ Array3D<T>& Array3D<T>::operator=(const Array3D<T>& A) {
         for (il::int_t i2 = 0; i2 < n2; ++i2) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i0 = 0; i0 < n0; ++i0) {
-              data_[(i2 * capacity(1) + i1) * capacity(0) + i0] = A(i0, i1, i2);
+              T* const element = data_ + (i2 * capacity(1) + i1) * capacity(0) + i0;
+              if (i0 < size(0) && i1 < size(1) && i2 < size(2)) {
+                *element = A(i0, i1, i2);
+              } else {
+                new (element) T(A(i0, i1, i2));
+              }
             }
           }
         }
diff --git a/il/container/4d/Array4C.h b/il/container/4d/Array4C.h
index 769beae..035da34 100644
--- a/il/container/4d/Array4C.h
+++ b/il/container/4d/Array4C.h
@@ -554,9 +554,12 @@ Array4C<T>& Array4C<T>::operator=(const Array4C<T>& A) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i2 = 0; i2 < n2; ++i2) {
               for (il::int_t i3 = 0; i3 < n3; ++i3) {
-                data_[((i0 * capacity(1) + i1) * capacity(2) + i2) *
-                          capacity(3) +
-                      i0] = A(i0, i1, i2, i3);
+                T* const element = data_ + ((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) + i3;
+                if (i0 < size(0) && i1 < size(1) && i2 < size(2) && i3 < size(3)) {
+                  *element = A(i0, i1, i2, i3);
+                } else {
+                  new (element) T(A(i0, i1, i2, i3));
+                }
               }
             }
           }
diff --git a/il/container/4d/Array4D.h b/il/container/4d/Array4D.h
index 908cdaf..4a0caae 100644
--- a/il/container/4d/Array4D.h
+++ b/il/container/4d/Array4D.h
@@ -554,9 +554,12 @@ Array4D<T>& Array4D<T>::operator=(const Array4D<T>& A) {
           for (il::int_t i2 = 0; i2 < n2; ++i2) {
             for (il::int_t i1 = 0; i1 < n1; ++i1) {
               for (il::int_t i0 = 0; i0 < n0; ++i0) {
-                data_[((i3 * capacity(2) + i2) * capacity(1) + i1) *
-                          capacity(0) +
-                      i0] = A(i0, i1, i2, i3);
+                T* const element = data_ + ((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) + i0;
+                if (i0 < size(0) && i1 < size(1) && i2 < size(2) && i3 < size(3)) {
+                  *element = A(i0, i1, i2, i3);
+                } else {
+                  new (element) T(A(i0, i1, i2, i3));
+                }
               }
             }
           }
-- 
2.43.0


From c7765b3ea22f266bd1e91ac2065980f73924533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:59 +0000
Subject: [PATCH 013/134] fix: aligned multi-dimensional arrays without storage
 satisfy their invariant

---
 il/container/2d/Array2C.h | 12 ++++++------
 il/container/2d/Array2D.h | 12 ++++++------
 il/container/3d/Array3C.h | 12 ++++++------
 il/container/3d/Array3D.h | 12 ++++++------
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index e1df4e8..202c215 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -354,9 +354,9 @@ Array2C<T>::Array2C(il::int_t n0, il::int_t n1, il::align_t,
   size_[1] = data_ + n1;
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = static_cast<short>(data_ ? alignment : 0);
+  align_r_ = static_cast<short>(data_ ? align_r : 0);
+  align_mod_ = static_cast<short>(data_ ? align_mod : 0);
 }
 
 template <typename T>
@@ -462,9 +462,9 @@ Array2C<T>::Array2C(il::int_t n0, il::int_t n1, const T& x, il::align_t,
   size_[1] = data_ + n1;
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = static_cast<short>(data_ ? alignment : 0);
+  align_r_ = static_cast<short>(data_ ? align_r : 0);
+  align_mod_ = static_cast<short>(data_ ? align_mod : 0);
 }
 
 template <typename T>
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index f482773..8d2302f 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -369,9 +369,9 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, il::align_t,
   size_[1] = data_ + n1;
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = static_cast<short>(data_ ? alignment : 0);
+  align_r_ = static_cast<short>(data_ ? align_r : 0);
+  align_mod_ = static_cast<short>(data_ ? align_mod : 0);
 }
 
 template <typename T>
@@ -510,9 +510,9 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, const T& x, il::align_t,
   size_[1] = data_ + n1;
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = static_cast<short>(data_ ? alignment : 0);
+  align_r_ = static_cast<short>(data_ ? align_r : 0);
+  align_mod_ = static_cast<short>(data_ ? align_mod : 0);
 }
 
 template <typename T>
diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 3c4d959..2a52add 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -384,9 +384,9 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, il::align_t,
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
   capacity_[2] = data_ + r2;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = static_cast<short>(data_ ? alignment : 0);
+  align_r_ = static_cast<short>(data_ ? align_r : 0);
+  align_mod_ = static_cast<short>(data_ ? align_mod : 0);
 }
 
 template <typename T>
@@ -508,9 +508,9 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
   capacity_[2] = data_ + r2;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = static_cast<short>(data_ ? alignment : 0);
+  align_r_ = static_cast<short>(data_ ? align_r : 0);
+  align_mod_ = static_cast<short>(data_ ? align_mod : 0);
 }
 
 template <typename T>
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index be72902..34fdca9 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -378,9 +378,9 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, il::align_t,
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
   capacity_[2] = data_ + r2;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = static_cast<short>(data_ ? alignment : 0);
+  align_r_ = static_cast<short>(data_ ? align_r : 0);
+  align_mod_ = static_cast<short>(data_ ? align_mod : 0);
 }
 
 template <typename T>
@@ -504,9 +504,9 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
   capacity_[2] = data_ + r2;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = static_cast<short>(data_ ? alignment : 0);
+  align_r_ = static_cast<short>(data_ ? align_r : 0);
+  align_mod_ = static_cast<short>(data_ ? align_mod : 0);
 }
 
 template <typename T>
-- 
2.43.0


From 71c511234c33f4935bbf64816574c6968a7cfc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:59 +0000
Subject: [PATCH 014/134] fix: il::Array2C copies an aligned array with the
 alignment of its source

---
 il/container/2d/Array2C.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 202c215..233e244 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -548,7 +548,7 @@ Array2C<T>::Array2C(const Array2C<T>& A) {
     if (il::isTrivial<T>::value && A.align_mod_ != 0) {
       r0 = n0;
       const il::int_t nb_lanes = static_cast<il::int_t>(
-          static_cast<std::size_t>(alignment_) / alignof(T));
+          static_cast<std::size_t>(A.alignment_) / alignof(T));
       bool error = false;
       r1 = il::safeUpperRound(n1, nb_lanes, il::io, error);
       if (error) {
-- 
2.43.0


From 856158b6b0038e903e19e7e42d3e13db46fe9ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:18 +0000
Subject: [PATCH 015/134] fix: il::Array2D::Resize accepts an element of the
 array as the fill value

---
 il/container/2d/Array2D.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 8d2302f..ff55aaf 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -978,6 +978,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
   const il::int_t n1_old = size(1);
   const bool need_memory = n0 > capacity(0) || n1 > capacity(1);
   if (need_memory) {
+    const T x_copy = x;
     il::int_t r0;
     il::int_t r1;
     if (n0 > 0 && n1 > 0) {
@@ -1025,7 +1026,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new_data[i1 * r0 + i0] = x;
+          new_data[i1 * r0 + i0] = x_copy;
         }
       }
     } else {
@@ -1048,7 +1049,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new (new_data + i1 * r0 + i0) T{x};
+          new (new_data + i1 * r0 + i0) T{x_copy};
         }
       }
     }
-- 
2.43.0


From 91f25bdcbebe7365d8619f1dfee58ad99e7c15d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 016/134] fix: il::Array2CEdit::Edit of a sub-range uses the
 row stride of the view

---
 il/container/2d/Array2CView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2CView.h b/il/container/2d/Array2CView.h
index ac65e44..f58d2b6 100644
--- a/il/container/2d/Array2CView.h
+++ b/il/container/2d/Array2CView.h
@@ -235,8 +235,8 @@ Array2CEdit<T> Array2CEdit<T>::Edit(il::Range r0, il::Range r1) {
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(r1.end) <=
                    static_cast<std::size_t>(this->size(1)));
 
-  const il::int_t my_stride = this->stride(1);
-  return il::Array2CEdit<T>{Data() + r0.begin + r1.begin * my_stride,
+  const il::int_t my_stride = this->stride(0);
+  return il::Array2CEdit<T>{Data() + r0.begin * my_stride + r1.begin,
                             r0.end - r0.begin,
                             r1.end - r1.begin,
                             my_stride,
-- 
2.43.0


From 8bb7114977181ae1d663d62844ff29db4aa0af11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:20 +0000
Subject: [PATCH 017/134] fix: il::Array3C::Resize and copy assignment loop
 over the right extents

---
 il/container/3d/Array3C.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 2a52add..b37b04c 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -823,7 +823,7 @@ Array3C<T>& Array3C<T>::operator=(const Array3C<T>& A) {
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
           for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
             for (il::int_t i2 = size(2) - 1;
-                 i2 >= (i0 < n0 && i1 < n1 ? n0 : 0); --i2) {
+                 i2 >= (i0 < n0 && i1 < n1 ? n2 : 0); --i2) {
               (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2)->~T();
             }
           }
@@ -1040,7 +1040,7 @@ void Array3C<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
   } else {
     if (il::isTrivial<T>::value) {
 #ifdef IL_DEFAULT_VALUE
-      for (il::int_t i0 = 0; i0 < n2; ++i0) {
+      for (il::int_t i0 = 0; i0 < n0; ++i0) {
         for (il::int_t i1 = 0; i1 < n1; ++i1) {
           for (il::int_t i2 = (i0 < n0_old && i1 < n1_old) ? n2_old : 0;
                i2 < n2; ++i2) {
-- 
2.43.0


From 00e7d0421d805c8a3fad3e2c5c32644480083092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 018/134] fix: il::blas checks the sizes of a product of two
 transposed matrices

---
 il/linearAlgebra/dense/blas/blas.h | 32 ++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index c477d8b..b95012e 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -677,6 +677,10 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -730,6 +734,10 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -785,6 +793,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -855,6 +867,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -923,6 +939,10 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -976,6 +996,10 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -1031,6 +1055,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -1101,6 +1129,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
-- 
2.43.0


From bb66e8cabfb9ad445ef8acc46e94820ceb212d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 019/134] fix: il::blas accepts il::Dot::Star for a row-major
 matrix of double

---
 il/linearAlgebra/dense/blas/blas.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index b95012e..91a09f5 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -547,6 +547,7 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
       IL_EXPECT_FAST(A.size(1) == x.size());
       break;
     case il::Dot::Transpose:
+    case il::Dot::Star:
       IL_EXPECT_FAST(A.size(0) == x.size());
       IL_EXPECT_FAST(A.size(1) == y.size());
       break;
-- 
2.43.0


From 107bdb6ee3915e665bb13de175573e0b06580934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:05 +0000
Subject: [PATCH 020/134] fix: il::Map built from an empty list initialises its
 counters

---
 il/container/hash/Map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index c96b366..778b7a9 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -221,6 +221,8 @@ Map<K, V, F>::Map(il::value_t, std::initializer_list<il::KeyValue<K, V>> list) {
   if (n == 0) {
     bucket_ = nullptr;
     p_ = -1;
+    nb_elements_ = 0;
+    nb_tombstones_ = 0;
 #ifdef IL_DEBUGGER_HELPERS
     size_ = 0;
 #endif
-- 
2.43.0


From a83e98d443cfb29c4acef01599502ae9d5d7b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:05 +0000
Subject: [PATCH 021/134] fix: copy of an il::Map without buckets has no
 dangling bucket pointer

---
 il/container/hash/Map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 778b7a9..809d461 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -258,6 +258,7 @@ Map<K, V, F>::Map(il::value_t, std::initializer_list<il::KeyValue<K, V>> list) {
 
 template <typename K, typename V, typename F>
 Map<K, V, F>::Map(const Map<K, V, F>& map) {
+  bucket_ = nullptr;
   p_ = map.p_;
 #ifdef IL_DEBUGGER_HELPERS
   size_ = map.size_;
-- 
2.43.0


From 52d83b19f52710471380e2599c993ede1d51567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:05 +0000
Subject: [PATCH 022/134] fix: il::Map copy assignment handles itself and
 releases its buckets when the source has none

---
 il/container/hash/Map.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 809d461..f3819ed 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -309,19 +309,22 @@ Map<K, V, F>::Map(Map<K, V, F>&& map) {
 
 template <typename K, typename V, typename F>
 Map<K, V, F>& Map<K, V, F>::operator=(const Map<K, V, F>& map) {
+  if (this == &map) {
+    return *this;
+  }
   const int p = map.p_;
   const int old_p = p_;
-  if (p >= 0) {
-    if (old_p >= 0) {
-      const il::int_t old_m = nbBuckets(old_p);
-      for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
-          (&((bucket_ + i)->value))->~V();
-          (&((bucket_ + i)->key))->~K();
-        }
+  if (old_p >= 0) {
+    const il::int_t old_m = nbBuckets(old_p);
+    for (il::int_t i = 0; i < old_m; ++i) {
+      if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
+        (&((bucket_ + i)->value))->~V();
+        (&((bucket_ + i)->key))->~K();
       }
     }
     il::deallocate(bucket_);
+  }
+  if (p >= 0) {
     const il::int_t m = nbBuckets(p);
     bucket_ = il::allocateArray<KeyValue<K, V>>(m);
     for (il::int_t i = 0; i < m; ++i) {
-- 
2.43.0


From 06be795e89fe134ce0b56d6b9767ba9e0fdb76e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:05 +0000
Subject: [PATCH 023/134] fix: il::Map move assignment compiles

---
 il/container/hash/Map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index f3819ed..ce1fff0 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -363,7 +363,7 @@ Map<K, V, F>& Map<K, V, F>::operator=(Map<K, V, F>&& map) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::is_empy(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
+        if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
           (&((bucket_ + i)->value))->~V();
           (&((bucket_ + i)->key))->~K();
         }
@@ -382,6 +382,9 @@ Map<K, V, F>& Map<K, V, F>::operator=(Map<K, V, F>&& map) {
     nb_tombstones_ = map.nb_tombstones_;
     map.bucket_ = nullptr;
     map.p_ = -1;
+#ifdef IL_DEBUGGER_HELPERS
+    map.size_ = 0;
+#endif
     map.nb_elements_ = 0;
     map.nb_tombstones_ = 0;
 #ifdef IL_DEBUG_CLASS
-- 
2.43.0


From 60af7fae3b313bce6cd4dc309bc244669148f976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:05 +0000
Subject: [PATCH 024/134] fix: il::Map::Set accepts the value the map already
 holds for the key

---
 il/container/hash/Map.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index ce1fff0..ed25134 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -414,8 +414,9 @@ void Map<K, V, F>::Set(const K& key, const V& value) {
   if (!found(i)) {
     Set(key, value, il::io, i);
   } else {
+    V new_value(value);
     (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(value);
+    new (&((bucket_ + i.index)->value)) V(std::move(new_value));
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -428,8 +429,9 @@ void Map<K, V, F>::Set(const K& key, V&& value) {
   if (!found(i)) {
     Set(key, std::move(value), il::io, i);
   } else {
+    V new_value(std::move(value));
     (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    new (&((bucket_ + i.index)->value)) V(std::move(new_value));
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -442,8 +444,9 @@ void Map<K, V, F>::Set(K&& key, const V& value) {
   if (!found(i)) {
     Set(std::move(key), value, il::io, i);
   } else {
+    V new_value(std::move(value));
     (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    new (&((bucket_ + i.index)->value)) V(std::move(new_value));
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -456,8 +459,9 @@ void Map<K, V, F>::Set(K&& key, V&& value) {
   if (!found(i)) {
     Set(std::move(key), std::move(value), il::io, i);
   } else {
+    V new_value(std::move(value));
     (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    new (&((bucket_ + i.index)->value)) V(std::move(new_value));
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -471,8 +475,9 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value) {
   if (!found(i)) {
     Set(key, value, il::io, i);
   } else {
+    V new_value(value);
     (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(value);
+    new (&((bucket_ + i.index)->value)) V(std::move(new_value));
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -486,8 +491,9 @@ void Map<K, V, F>::SetCString(const char (&key)[m], V&& value) {
   if (!found(i)) {
     Set(key, value, il::io, i);
   } else {
+    V new_value(std::move(value));
     (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    new (&((bucket_ + i.index)->value)) V(std::move(new_value));
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
-- 
2.43.0


From e6d5786da6cc9ba58bd26fe7c16d447693646059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 025/134] fix: il::Map::Set accepts a value of the map when the
 buckets have to grow

---
 il/container/hash/Map.h | 54 ++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index ed25134..9074332 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -641,6 +641,8 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
   const il::int_t nb_buckets = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(nb_buckets)) {
+    // The value might belong to a bucket which is about to be released
+    V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
@@ -648,9 +650,12 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
     }
     il::spot_t j = searchCString(key, n);
     i_local = -(1 + j.index);
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key, n);
+    new (&((bucket_ + i_local)->value)) V(std::move(new_value));
+  } else {
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key, n);
+    new (&((bucket_ + i_local)->value)) V(value);
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key, n);
-  new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
 
   i.index = i_local;
@@ -673,6 +678,8 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value, il::io_t,
   const il::int_t nb_buckets = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(nb_buckets)) {
+    // The value might belong to a bucket which is about to be released
+    V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
@@ -680,9 +687,12 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value, il::io_t,
     }
     il::spot_t j = searchCString(key);
     i_local = -(1 + j.index);
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
+    new (&((bucket_ + i_local)->value)) V(std::move(new_value));
+  } else {
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
+    new (&((bucket_ + i_local)->value)) V(value);
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
-  new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
@@ -702,6 +712,8 @@ void Map<K, V, F>::Set(const K& key, const V& value, il::io_t, il::spot_t& i) {
   const il::int_t m = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(m)) {
+    // The value might belong to a bucket which is about to be released
+    V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
@@ -709,9 +721,12 @@ void Map<K, V, F>::Set(const K& key, const V& value, il::io_t, il::spot_t& i) {
     }
     il::spot_t j = search(key);
     i_local = -(1 + j.index);
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
+    new (&((bucket_ + i_local)->value)) V(std::move(new_value));
+  } else {
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
+    new (&((bucket_ + i_local)->value)) V(value);
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
-  new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
@@ -731,6 +746,8 @@ void Map<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
   const il::int_t m = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(m)) {
+    // The value might belong to a bucket which is about to be released
+    V new_value(std::move(value));
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
@@ -738,9 +755,12 @@ void Map<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
     }
     il::spot_t j = search(key);
     i_local = -(1 + j.index);
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
+    new (&((bucket_ + i_local)->value)) V(std::move(new_value));
+  } else {
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
+    new (&((bucket_ + i_local)->value)) V(std::move(value));
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
-  new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
@@ -760,6 +780,8 @@ void Map<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
   const il::int_t m = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(m)) {
+    // The value might belong to a bucket which is about to be released
+    V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
@@ -767,9 +789,12 @@ void Map<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
     }
     il::spot_t j = search(key);
     i_local = -(1 + j.index);
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
+    new (&((bucket_ + i_local)->value)) V(std::move(new_value));
+  } else {
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
+    new (&((bucket_ + i_local)->value)) V(value);
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
-  new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
@@ -789,6 +814,8 @@ void Map<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
   const il::int_t m = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(m)) {
+    // The value might belong to a bucket which is about to be released
+    V new_value(std::move(value));
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
@@ -796,9 +823,12 @@ void Map<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
     }
     il::spot_t j = search(key);
     i_local = -(1 + j.index);
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
+    new (&((bucket_ + i_local)->value)) V(std::move(new_value));
+  } else {
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
+    new (&((bucket_ + i_local)->value)) V(std::move(value));
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
-  new (&((bucket_ + i_local)->value)) V(std::move(value));
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
-- 
2.43.0


From c08d7eac84d9d6bb077ba26b833ddfbd2779f834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 026/134] fix: il::Map::erase does not hash a destroyed key

---
 il/container/hash/Map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 9074332..b08705d 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -844,10 +844,10 @@ void Map<K, V, F>::erase(il::spot_t i) {
 #endif
   IL_EXPECT_FAST(found(i));
 
-  (&((bucket_ + i.index)->key))->~K();
 #ifdef IL_DEBUG_CLASS
   hash_ -= F::hash((bucket_ + i.index)->key, p_);
 #endif
+  (&((bucket_ + i.index)->key))->~K();
   F::constructTombstone(il::io, reinterpret_cast<K*>(bucket_ + i.index));
   (&((bucket_ + i.index)->value))->~V();
   --nb_elements_;
-- 
2.43.0


From 8dd99468e0cbfb896e779b133d5cc658d1780465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 027/134] fix: il::Map::Rehash inserts the elements again as it
 removes the tombstones

---
 il/container/hash/Map.h | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index b08705d..8b538b3 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -1117,22 +1117,7 @@ void Map<K, V, F>::ReserveWithP(int p) {
 template <typename K, typename V, typename F>
 void Map<K, V, F>::Rehash() {
   if (nb_tombstones_ > 0) {
-    const il::int_t m = nbBuckets();
-    KeyValue<K, V>* bucket = il::allocateArray<KeyValue<K, V>>(m);
-    for (il::int_t i = 0; i < m; ++i) {
-      F::constructEmpty(il::io, reinterpret_cast<K*>(bucket + i));
-    }
-    for (il::int_t i = 0; i < m; ++i) {
-      if (!(F::isEmpty(bucket_[i].key) || F::isTombstone(bucket_[i].key))) {
-        new (&((bucket + i)->key)) K(std::move(bucket_[i].key));
-        new (&((bucket + i)->value)) V(std::move(bucket_[i].value));
-        ((bucket_ + i)->value).~V();
-        ((bucket_ + i)->key).~K();
-      }
-    }
-    il::deallocate(bucket_);
-    bucket_ = bucket;
-    nb_tombstones_ = 0;
+    ReserveWithP(p_);
   }
 #ifdef IL_DEBUG_CLASS
   hash_ = 2 * hash_;
-- 
2.43.0


From d9ecde295a4323042f125909f08a726e8a12af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 028/134] fix: il::Map::valueForKey does not return a reference
 to a temporary

---
 il/container/hash/Map.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 8b538b3..8c73369 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -106,10 +106,10 @@ class Map {
   const K& key(il::spot_t i) const;
   const V& value(il::spot_t i) const;
   V& Value(il::spot_t i);
-  const V& valueForKey(const K& key) const;
+  V valueForKey(const K& key) const;
   const V& valueForKey(const K& key, const V& default_value) const;
   template <il::int_t m>
-  const V& valueForCString(const char (&key)[m]) const;
+  V valueForCString(const char (&key)[m]) const;
   template <il::int_t m>
   const V& valueForCString(const char (&key)[m], const V& default_value) const;
 
@@ -894,7 +894,7 @@ V& Map<K, V, F>::Value(il::spot_t i) {
 }
 
 template <typename K, typename V, typename F>
-const V& Map<K, V, F>::valueForKey(const K& key) const {
+V Map<K, V, F>::valueForKey(const K& key) const {
   const il::spot_t i = search(key);
   if (found(i)) {
     return value(i);
@@ -915,7 +915,7 @@ const V& Map<K, V, F>::valueForKey(const K& key, const V& default_value) const {
 
 template <typename K, typename V, typename F>
 template <il::int_t m>
-const V& Map<K, V, F>::valueForCString(const char (&key)[m]) const {
+V Map<K, V, F>::valueForCString(const char (&key)[m]) const {
   const il::spot_t i = search(key);
   if (found(i)) {
     return value(i);
-- 
2.43.0


From 58cc0e77469ed816536cb5c41c36be9d40141930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 029/134] fix: il::Map::searchCString hashes the string with
 the number of buckets

---
 il/container/hash/Map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 8c73369..74b249c 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -594,7 +594,7 @@ il::spot_t Map<K, V, F>::searchCString(const char* key, il::int_t n) const {
   }
 
   const std::size_t mask = (static_cast<std::size_t>(1) << p_) - 1;
-  std::size_t i = F::hash(key, n) & mask;
+  std::size_t i = F::hash(key, n, p_);
   std::size_t i_tombstone = -1;
   std::size_t delta_i = 1;
   while (true) {
-- 
2.43.0


From ac636714b5db38d10cb3233afd29afd1d8bbce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 030/134] fix: il::Map::Reserve does not drop the elements when
 it is given a small size

---
 il/container/hash/Map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 74b249c..9360070 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -962,7 +962,10 @@ template <typename K, typename V, typename F>
 void Map<K, V, F>::Reserve(il::int_t n) {
   IL_EXPECT_FAST(n >= 0);
 
-  ReserveWithP(pForSlots(n));
+  const int p = pForSlots(n);
+  if (p > p_) {
+    ReserveWithP(p);
+  }
 }
 
 template <typename K, typename V, typename F>
-- 
2.43.0


From b3d9615f07cdebb3d607e8fbad29bcb5d297423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 031/134] fix: looping over an il::Map without buckets

---
 il/container/hash/Map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 9360070..d0f9738 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -1033,7 +1033,7 @@ void Map<K, V, F>::Clear() {
 
 template <typename K, typename V, typename F>
 il::spot_t Map<K, V, F>::spotBegin() const {
-  const il::int_t m = il::int_t{1} << p_;
+  const il::int_t m = nbBuckets();
 
   il::int_t i = 0;
   while (i < m &&
@@ -1051,7 +1051,7 @@ il::spot_t Map<K, V, F>::spotBegin() const {
 template <typename K, typename V, typename F>
 il::spot_t Map<K, V, F>::spotEnd() const {
   il::spot_t s;
-  s.index = il::int_t{1} << p_;
+  s.index = nbBuckets();
 #ifdef IL_DEBUG_CLASS
   s.signature = hash_;
 #endif
@@ -1063,7 +1063,7 @@ il::spot_t Map<K, V, F>::next(il::spot_t i) const {
 #ifdef IL_DEBUG_CLASS
   IL_EXPECT_MEDIUM(i.signature == hash_);
 #endif
-  const il::int_t m = il::int_t{1} << p_;
+  const il::int_t m = nbBuckets();
 
   il::int_t i_local = i.index;
   ++i_local;
-- 
2.43.0


From 334278b431d0c04c9f137c50652787837ba23381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:16 +0000
Subject: [PATCH 032/134] fix: il::Map counts one tombstone less when an
 element takes its place

---
 il/container/hash/Map.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index d0f9738..25be34a 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -653,6 +653,9 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
     new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key, n);
     new (&((bucket_ + i_local)->value)) V(std::move(new_value));
   } else {
+    if (F::isTombstone(bucket_[i_local].key)) {
+      --nb_tombstones_;
+    }
     new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key, n);
     new (&((bucket_ + i_local)->value)) V(value);
   }
@@ -690,6 +693,9 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value, il::io_t,
     new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
     new (&((bucket_ + i_local)->value)) V(std::move(new_value));
   } else {
+    if (F::isTombstone(bucket_[i_local].key)) {
+      --nb_tombstones_;
+    }
     new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
     new (&((bucket_ + i_local)->value)) V(value);
   }
@@ -724,6 +730,9 @@ void Map<K, V, F>::Set(const K& key, const V& value, il::io_t, il::spot_t& i) {
     new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
     new (&((bucket_ + i_local)->value)) V(std::move(new_value));
   } else {
+    if (F::isTombstone(bucket_[i_local].key)) {
+      --nb_tombstones_;
+    }
     new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
     new (&((bucket_ + i_local)->value)) V(value);
   }
@@ -758,6 +767,9 @@ void Map<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
     new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
     new (&((bucket_ + i_local)->value)) V(std::move(new_value));
   } else {
+    if (F::isTombstone(bucket_[i_local].key)) {
+      --nb_tombstones_;
+    }
     new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
     new (&((bucket_ + i_local)->value)) V(std::move(value));
   }
@@ -792,6 +804,9 @@ void Map<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
     new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
     new (&((bucket_ + i_local)->value)) V(std::move(new_value));
   } else {
+    if (F::isTombstone(bucket_[i_local].key)) {
+      --nb_tombstones_;
+    }
     new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
     new (&((bucket_ + i_local)->value)) V(value);
   }
@@ -826,6 +841,9 @@ void Map<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
     new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
     new (&((bucket_ + i_local)->value)) V(std::move(new_value));
   } else {
+    if (F::isTombstone(bucket_[i_local].key)) {
+      --nb_tombstones_;
+    }
     new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
     new (&((bucket_ + i_local)->value)) V(std::move(value));
   }
-- 
2.43.0


From 83468ff75f4429c5c1d4c56088c45cb6d32ef745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:56 +0000
Subject: [PATCH 033/134] fix: il::MapArray does not hash a key with an invalid
 number of buckets

---
 il/container/hash/MapArray.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index df4a60c..402ff6f 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -99,7 +99,7 @@ void MapArray<K, V, F>::Set(const K& key, const V& value) {
   array_.Append(il::emplace, key, value);
   map_.Set(key, i);
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
 #endif
 }
 
@@ -109,7 +109,7 @@ void MapArray<K, V, F>::Set(const K& key, V&& value) {
   array_.Append(il::emplace, key, std::move(value));
   map_.Set(key, i);
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
 #endif
 }
 
@@ -119,7 +119,7 @@ void MapArray<K, V, F>::Set(K&& key, V&& value) {
   array_.Append(il::emplace, key, std::move(value));
   map_.Set(std::move(key), i);
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
 #endif
 }
 
@@ -132,7 +132,7 @@ void MapArray<K, V, F>::Set(const K& key, const V& value, il::io_t,
 
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
   i.signature = hash_;
 #endif
 }
@@ -144,7 +144,7 @@ void MapArray<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
   map_.Set(key, j, il::io, i);
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
   i.signature = hash_;
 #endif
 }
@@ -156,7 +156,7 @@ void MapArray<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
   map_.Set(std::move(key), j, il::io, i);
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
   i.signature = hash_;
 #endif
 }
-- 
2.43.0


From 6a94266df29d44998d388ec324a9fbc74800727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:56 +0000
Subject: [PATCH 034/134] fix: il::MapArray::Set is defined for a key to move
 and a value to copy

---
 il/container/hash/MapArray.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index 402ff6f..210fef4 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -113,6 +113,16 @@ void MapArray<K, V, F>::Set(const K& key, V&& value) {
 #endif
 }
 
+template <typename K, typename V, typename F>
+void MapArray<K, V, F>::Set(K&& key, const V& value) {
+  const il::int_t i = array_.size();
+  array_.Append(il::emplace, key, value);
+  map_.Set(std::move(key), i);
+#ifdef IL_DEBUG_CLASS
+  hash_ = map_.hash();
+#endif
+}
+
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value) {
   const il::int_t i = array_.size();
@@ -149,6 +159,19 @@ void MapArray<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
 #endif
 }
 
+template <typename K, typename V, typename F>
+void MapArray<K, V, F>::Set(K&& key, const V& value, il::io_t,
+                            il::spot_t& i) {
+  const il::int_t j = array_.size();
+  array_.Append(il::emplace, key, value);
+  map_.Set(std::move(key), j, il::io, i);
+  i.index = j;
+#ifdef IL_DEBUG_CLASS
+  hash_ = map_.hash();
+  i.signature = hash_;
+#endif
+}
+
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
   const il::int_t j = array_.size();
-- 
2.43.0


From fc9f355b0bd1af7eee8eb89edf0354d549400f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:56 +0000
Subject: [PATCH 035/134] fix: il::MapArray::Set replaces the value of a key it
 already has

---
 il/container/hash/MapArray.h | 44 ++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index 210fef4..e52e0ca 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -95,9 +95,14 @@ MapArray<K, V, F>::MapArray(il::value_t,
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, const V& value) {
-  const il::int_t i = array_.size();
-  array_.Append(il::emplace, key, value);
-  map_.Set(key, i);
+  const il::spot_t i = map_.search(key);
+  if (map_.found(i)) {
+    array_[map_.value(i)].value = value;
+  } else {
+    const il::int_t j = array_.size();
+    array_.Append(il::emplace, key, value);
+    map_.Set(key, j);
+  }
 #ifdef IL_DEBUG_CLASS
   hash_ = map_.hash();
 #endif
@@ -105,9 +110,14 @@ void MapArray<K, V, F>::Set(const K& key, const V& value) {
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, V&& value) {
-  const il::int_t i = array_.size();
-  array_.Append(il::emplace, key, std::move(value));
-  map_.Set(key, i);
+  const il::spot_t i = map_.search(key);
+  if (map_.found(i)) {
+    array_[map_.value(i)].value = std::move(value);
+  } else {
+    const il::int_t j = array_.size();
+    array_.Append(il::emplace, key, std::move(value));
+    map_.Set(key, j);
+  }
 #ifdef IL_DEBUG_CLASS
   hash_ = map_.hash();
 #endif
@@ -115,9 +125,14 @@ void MapArray<K, V, F>::Set(const K& key, V&& value) {
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, const V& value) {
-  const il::int_t i = array_.size();
-  array_.Append(il::emplace, key, value);
-  map_.Set(std::move(key), i);
+  const il::spot_t i = map_.search(key);
+  if (map_.found(i)) {
+    array_[map_.value(i)].value = value;
+  } else {
+    const il::int_t j = array_.size();
+    array_.Append(il::emplace, key, value);
+    map_.Set(std::move(key), j);
+  }
 #ifdef IL_DEBUG_CLASS
   hash_ = map_.hash();
 #endif
@@ -125,9 +140,14 @@ void MapArray<K, V, F>::Set(K&& key, const V& value) {
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value) {
-  const il::int_t i = array_.size();
-  array_.Append(il::emplace, key, std::move(value));
-  map_.Set(std::move(key), i);
+  const il::spot_t i = map_.search(key);
+  if (map_.found(i)) {
+    array_[map_.value(i)].value = std::move(value);
+  } else {
+    const il::int_t j = array_.size();
+    array_.Append(il::emplace, key, std::move(value));
+    map_.Set(std::move(key), j);
+  }
 #ifdef IL_DEBUG_CLASS
   hash_ = map_.hash();
 #endif
-- 
2.43.0


From 1fa4c15dc6999abbd0a4894026e828b5adca3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:13 +0000
Subject: [PATCH 036/134] fix: il::MapArray built from a list holds each key
 once

---
 il/container/hash/MapArray.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index e52e0ca..a12d5be 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -83,13 +83,11 @@ MapArray<K, V, F>::MapArray(il::value_t,
     array_.Reserve(n);
     map_.Reserve(n);
     for (il::int_t i = 0; i < n; ++i) {
-      array_.Append(il::emplace, (list.begin() + i)->key,
-                    (list.begin() + i)->value);
-      map_.Set((list.begin() + i)->key, i);
+      Set((list.begin() + i)->key, (list.begin() + i)->value);
     }
   }
 #ifdef IL_DEBUG_CLASS
-  hash_ = static_cast<std::size_t>(n);
+  hash_ = map_.hash();
 #endif
 };
 
-- 
2.43.0


From b5f80b833b6fdbe9d128991726bee82790b6629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:33 +0000
Subject: [PATCH 037/134] fix: il::Deque::PushBack does not overwrite the front
 of a full deque

---
 il/container/deque/Deque.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index e609004..df851e2 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -133,7 +133,8 @@ void Deque<T>::PushBack(const T& x) {
     data_[0] = x;
     front_ = 0;
     back_ = 0;
-  } else if (back_ + 1 < front_ || back_ + 1 < data_.size()) {
+  } else if (back_ + 1 < front_ ||
+             (front_ <= back_ && back_ + 1 < data_.size())) {
     ++back_;
     data_[back_] = x;
   } else if (back_ + 1 == data_.size()) {
@@ -155,7 +156,8 @@ void Deque<T>::PushBack(il::emplace_t, Args&&... args) {
     data_[0] = T(std::forward<Args>(args)...);
     front_ = 0;
     back_ = 0;
-  } else if (back_ + 1 < front_ || back_ + 1 < data_.size()) {
+  } else if (back_ + 1 < front_ ||
+             (front_ <= back_ && back_ + 1 < data_.size())) {
     ++back_;
     data_[back_] = T(std::forward<Args>(args)...);
   } else if (back_ + 1 == data_.size()) {
-- 
2.43.0


From 3cf57f2da813c8e41153ed697d6adb5a23a4949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:33 +0000
Subject: [PATCH 038/134] fix: il::Deque::PopBack empties a deque of one
 element

---
 il/container/deque/Deque.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index df851e2..78446b4 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -218,7 +218,10 @@ template <typename T>
 void Deque<T>::PopBack() {
   IL_EXPECT_MEDIUM(size() > 0);
 
-  if (back_ > 0) {
+  if (size() == 1) {
+    front_ = -1;
+    back_ = -1;
+  } else if (back_ > 0) {
     --back_;
   } else {
     back_ = data_.size() - 1;
-- 
2.43.0


From ef7c1c0b77efc7cc3f10300b34d0ccfbf6b049ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:12 +0000
Subject: [PATCH 039/134] fix: moving an il::String does not leak the storage
 of either string

---
 il/container/string/String.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 38fff8c..43a83a7 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -362,7 +362,7 @@ inline String::String(const String& s) : String{s.type(), s.data(), s.size()} {}
 inline String::String(String&& s) {
   const il::int_t size = s.size();
   const il::StringType type = s.type();
-  if (size <= max_small_size_) {
+  if (s.isSmall()) {
     std::memcpy(small_, s.asCString(), size + 1);
     setSmall(type, size);
   } else {
@@ -434,19 +434,19 @@ inline String& String::operator=(String&& s) {
   if (this != &s) {
     const il::int_t size = s.size();
     const il::StringType type = s.type();
-    if (size <= max_small_size_) {
-      if (!isSmall()) {
-        il::deallocate(large_.data);
-      }
+    if (!isSmall()) {
+      il::deallocate(large_.data);
+    }
+    if (s.isSmall()) {
       std::memcpy(small_, s.data(), size + 1);
       setSmall(type, size);
     } else {
       large_.data = s.large_.data;
       large_.size = s.large_.size;
       large_.capacity = s.large_.capacity;
-      s.small_[0] = '\0';
-      s.setSmall(il::StringType::Ascii, 0);
     }
+    s.small_[0] = '\0';
+    s.setSmall(il::StringType::Ascii, 0);
   }
   return *this;
 }
-- 
2.43.0


From b96689a24ebd2e49de084e16d00e8bab8f442c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:13 +0000
Subject: [PATCH 040/134] fix: il::String can be assigned to itself

---
 il/container/string/String.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 43a83a7..6d70909 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -404,6 +404,10 @@ inline String& String::operator=(const char (&data)[m]) {
 }
 
 inline String& String::operator=(const String& s) {
+  if (this == &s) {
+    return *this;
+  }
+
   const il::int_t size = s.size();
   const il::StringType type = s.type();
   if (size <= max_small_size_) {
-- 
2.43.0


From 5587a6b9108ac93ddc193be2f99f9ab3685dd19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:13 +0000
Subject: [PATCH 041/134] fix: il::String::Append of n ASCII runes sets the
 size

---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 6d70909..ebc5e9f 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -610,7 +610,7 @@ inline void String::Append(il::int_t n, int rune) {
       p[old_n + k] = static_cast<char>(rune);
     }
     p[old_n + n] = '\0';
-    SetInvariant(il::unsafe, t, old_n + 1);
+    SetInvariant(il::unsafe, t, old_n + n);
   } else if (urune < 0x00000800u) {
     Grow(il::unsafe, old_n, old_n + 2 * n);
     char* p = Data();
-- 
2.43.0


From 08015bdbf7f6a6187d49e220d051f8e840562f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:13 +0000
Subject: [PATCH 042/134] fix: il::String::Append of n three-byte runes
 reserves the memory it writes to

---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index ebc5e9f..6bd5e3d 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -623,7 +623,7 @@ inline void String::Append(il::int_t n, int rune) {
     SetInvariant(il::unsafe, il::joinType(t, il::StringType::Utf8),
                  old_n + 2 * n);
   } else if (urune < 0x00010000u) {
-    Grow(il::unsafe, old_n, old_n + 3);
+    Grow(il::unsafe, old_n, old_n + 3 * n);
     char* p = Data();
     for (il::int_t k = 0; k < n; ++k) {
       p[old_n + 3 * k] = static_cast<char>((urune >> 12) | 0x000000E0u);
-- 
2.43.0


From 6066161becf4c9c63bacf6f2823833cfa46e68b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:13 +0000
Subject: [PATCH 043/134] fix: il::String::Grow keeps the storage of a short
 string that is on the heap

---
 il/container/string/String.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 6bd5e3d..5b9ed8d 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1061,13 +1061,8 @@ inline void String::Grow(il::unsafe_t, il::int_t n_to_copy, il::int_t n) {
   const bool old_is_small = isSmall();
   char* old_data = Data();
   const il::int_t old_capacity = capacity();
-  if (n <= max_small_size_) {
-    if (!old_is_small) {
-      std::memcpy(small_, old_data, n_to_copy);
-    }
-    setSmall(il::StringType::Byte, n);
-  } else if (n <= old_capacity) {
-    setLarge(il::StringType::Byte, n, old_capacity);
+  if (n <= old_capacity) {
+    SetInvariant(il::unsafe, il::StringType::Byte, n);
   } else {
     const il::int_t r = nextCapacity(n);
     char* p = il::allocateArray<char>(r + 1);
-- 
2.43.0


From f48e940f117af034fafa87161c7c1e2a0b3d7c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:13 +0000
Subject: [PATCH 044/134] fix: il::String::Append accepts a part of the string
 itself

---
 il/container/string/String.h | 73 ++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 5b9ed8d..1112b6c 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -162,6 +162,9 @@ class String {
   void SetInvariant(il::unsafe_t, il::StringType type, il::int_t n);
 
  private:
+  // The data to append might be part of this string
+  void appendData(il::StringType type, const char* s0, il::int_t n0,
+                  const char* s1, il::int_t n1, const char* s2, il::int_t n2);
   il::int_t smallSize() const;
   il::int_t largeCapacity() const;
   // Does not set the '\0'. You are responsible for that.
@@ -682,53 +685,51 @@ inline void String::Append(il::StringType t0, const char* data, il::int_t n) {
   IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_AXIOM("data must point to an array of length at least n");
 
-  const il::int_t old_n = size();
-  const il::StringType t = joinType(type(), t0);
-  Grow(il::unsafe, old_n, old_n + n);
-  char* p = this->Data();
-  std::memcpy(p + old_n, data, n);
-  p[old_n + n] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n);
+  appendData(joinType(type(), t0), data, n, nullptr, 0, nullptr, 0);
 }
 
 inline void String::Append(const StringView& s0) {
-  const il::int_t old_n = size();
-  const il::int_t n0 = s0.size();
-  const il::StringType t = joinType(type(), s0.type());
-  Grow(il::unsafe, old_n, old_n + n0);
-  char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
-  p[old_n + n0] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n0);
+  appendData(joinType(type(), s0.type()), s0.data(), s0.size(), nullptr, 0,
+             nullptr, 0);
 }
 
 inline void String::Append(const StringView& s0, const StringView& s1) {
-  const il::int_t old_n = size();
-  const il::int_t n0 = s0.size();
-  const il::int_t n1 = s1.size();
-  const il::StringType t = joinType(type(), s0.type(), s1.type());
-  Grow(il::unsafe, old_n, old_n + n0 + n1);
-  char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
-  std::memcpy(p + old_n + n0, s1.data(), n1);
-  p[old_n + n0 + n1] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n0 + n1);
+  appendData(joinType(type(), s0.type(), s1.type()), s0.data(), s0.size(),
+             s1.data(), s1.size(), nullptr, 0);
 }
 
 inline void String::Append(const StringView& s0, const StringView& s1,
                            const StringView& s2) {
+  appendData(joinType(type(), s0.type(), s1.type(), s2.type()), s0.data(),
+             s0.size(), s1.data(), s1.size(), s2.data(), s2.size());
+}
+
+inline void String::appendData(il::StringType type, const char* s0,
+                               il::int_t n0, const char* s1, il::int_t n1,
+                               const char* s2, il::int_t n2) {
   const il::int_t old_n = size();
-  const il::int_t n0 = s0.size();
-  const il::int_t n1 = s1.size();
-  const il::int_t n2 = s2.size();
-  const il::StringType t = joinType(type(), s0.type(), s1.type(), s2.type());
-  Grow(il::unsafe, old_n, old_n + n0 + n1 + n2);
-  char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
-  std::memcpy(p + old_n + n0, s1.data(), n1);
-  std::memcpy(p + old_n + n0 + n1, s2.data(), n2);
-  p[old_n + n0 + n1 + n2] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n0 + n1 + n2);
+  const il::int_t n = old_n + n0 + n1 + n2;
+  if (n <= capacity()) {
+    char* p = Data();
+    if (n0 > 0) {
+      std::memcpy(p + old_n, s0, n0);
+    }
+    if (n1 > 0) {
+      std::memcpy(p + old_n + n0, s1, n1);
+    }
+    if (n2 > 0) {
+      std::memcpy(p + old_n + n0 + n1, s2, n2);
+    }
+    p[n] = '\0';
+    SetInvariant(il::unsafe, type, n);
+  } else {
+    il::String s{il::unsafe, n};
+    s.SetInvariant(il::unsafe, type, 0);
+    std::memcpy(s.Data(), data(), old_n);
+    s.SetInvariant(il::unsafe, type, old_n);
+    s.appendData(type, s0, n0, s1, n1, s2, n2);
+    *this = std::move(s);
+  }
 }
 
 inline void String::Insert(il::int_t i, char c) {
-- 
2.43.0


From e08d1c2901dae4a87f4a8cd39f2686a58840fc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:13 +0000
Subject: [PATCH 045/134] fix: il::String::Insert terminates the string, checks
 the position and releases the old storage

---
 il/container/string/String.h | 120 ++++++-----------------------------
 1 file changed, 18 insertions(+), 102 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 1112b6c..351e1cd 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -734,141 +734,57 @@ inline void String::appendData(il::StringType type, const char* s0,
 
 inline void String::Insert(il::int_t i, char c) {
   IL_EXPECT_MEDIUM(static_cast<unsigned char>(c) < 128);
-  IL_EXPECT_MEDIUM(static_cast<std::size_t>(i) <=
-                   static_cast<std::size_t>(size()));
-  if (type() == il::StringType::Utf8) {
-    IL_EXPECT_MEDIUM(isRuneBoundary(i));
-  }
 
-  const il::int_t old_size = size();
-  const il::int_t old_capacity = capacity();
-  const bool old_is_small = isSmall();
-  char* p = Data();
-  if (old_size + 1 <= old_capacity) {
-    for (il::int_t k = old_size; k >= i + 1; k--) {
-      p[k] = p[k - 1];
-    }
-    p[i] = c;
-    if (old_is_small) {
-      setSmall(type(), old_size + 1);
-    } else {
-      setLarge(type(), old_size + 1, old_capacity);
-    }
-  } else {
-    const il::int_t r = nextCapacity(old_size + 1);
-    char* new_p = il::allocateArray<char>(r + 1);
-    std::memcpy(new_p, p, i);
-    new_p[i] = c;
-    std::memcpy(new_p + i + 1, p + i, old_size - i);
-    large_.data = new_p;
-    setLarge(type(), old_size + 1, r);
-  }
+  Insert(i, il::StringType::Ascii, &c, 1);
 }
 
 // inline void String::Insert(il::int_t i, int rune) {}
 
 inline void String::Insert(il::int_t i, il::int_t n, char c) {
+  IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <= static_cast<std::size_t>(n));
-  if (type() == il::StringType::Utf8) {
-    IL_EXPECT_FAST(isRuneBoundary(i));
-  }
 
-  const il::int_t old_size = size();
-  const il::int_t old_capacity = capacity();
-  const bool old_is_small = isSmall();
-  char* p = Data();
-  if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
-      p[k] = p[k - n];
-    }
-    for (il::int_t k = i; k < i + n; ++k) {
-      p[k] = c;
-    }
-    if (old_is_small) {
-      setSmall(type(), old_size + n);
-    } else {
-      setLarge(type(), old_size + n, old_capacity);
-    }
-  } else {
-    const il::int_t r = nextCapacity(old_size + n);
-    char* new_p = il::allocateArray<char>(r + 1);
-    std::memcpy(new_p, p, i);
-    for (il::int_t k = i; k < i + n; ++k) {
-      new_p[k] = c;
-    }
-    std::memcpy(new_p + i + n, p + i, old_size - i);
-    large_.data = new_p;
-    setLarge(type(), old_size + n, r);
-  }
+  il::String s{};
+  s.Append(n, c);
+  Insert(i, s);
 }
 
 // inline void String::Insert(il::int_t i, il::int_t n, int rune) {}
 
 template <il::int_t m>
 inline void String::Insert(il::int_t i, const char (&s)[m]) {
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
-                 static_cast<std::size_t>(size()));
-  if (type() == il::StringType::Utf8) {
-    IL_EXPECT_FAST(isRuneBoundary(i));
-  }
-
-  const il::int_t n = m - 1;
-  const il::int_t old_size = size();
-  const il::int_t old_capacity = capacity();
-  const bool old_is_small = isSmall();
-  char* p = Data();
-  if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
-      p[k] = p[k - n];
-    }
-    std::memcpy(p + i, s, n);
-    if (old_is_small) {
-      setSmall(type(), old_size + n);
-    } else {
-      setLarge(type(), old_size + n, old_capacity);
-    }
-  } else {
-    const il::int_t r = nextCapacity(old_size + n);
-    char* new_p = il::allocateArray<char>(r + 1);
-    std::memcpy(new_p, p, i);
-    std::memcpy(new_p + i, s, n);
-    std::memcpy(new_p + i + n, p + i, old_size - i);
-    large_.data = new_p;
-    setLarge(type(), old_size + n, r);
-  }
+  Insert(i, il::StringType::Utf8, s, m - 1);
 }
 
 inline void String::Insert(il::int_t i, il::StringType t, const char* s,
                            il::int_t n) {
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <= static_cast<std::size_t>(n));
+  IL_EXPECT_FAST(n >= 0);
+  IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
+                 static_cast<std::size_t>(size()));
   if (type() == il::StringType::Utf8) {
     IL_EXPECT_FAST(isRuneBoundary(i));
   }
 
   const il::int_t old_size = size();
-  const il::int_t old_capacity = capacity();
-  const bool old_is_small = isSmall();
   const il::StringType t_new = il::joinType(type(), t);
   char* p = Data();
-  if (old_size + n <= old_capacity) {
+  const bool is_inside = s >= p && s <= p + old_size;
+  if (old_size + n <= capacity() && !is_inside) {
     for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
       p[k] = p[k - n];
     }
     std::memcpy(p + i, s, n);
-    if (old_is_small) {
-      setSmall(t_new, old_size + n);
-    } else {
-      setLarge(t_new, old_size + n, old_capacity);
-    }
+    p[old_size + n] = '\0';
+    SetInvariant(il::unsafe, t_new, old_size + n);
   } else {
-    const il::int_t r = nextCapacity(old_size + n);
-    char* new_p = il::allocateArray<char>(r + 1);
+    il::String ans{il::unsafe, old_size + n};
+    char* new_p = ans.Data();
     std::memcpy(new_p, p, i);
     std::memcpy(new_p + i, s, n);
     std::memcpy(new_p + i + n, p + i, old_size - i);
-    large_.data = new_p;
-    setLarge(t_new, old_size + n, r);
+    new_p[old_size + n] = '\0';
+    ans.SetInvariant(il::unsafe, t_new, old_size + n);
+    *this = std::move(ans);
   }
 }
 
-- 
2.43.0


From 7c13a80a0862328b13e12d9a86b1df88ae047350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:13 +0000
Subject: [PATCH 046/134] fix: parts of an il::String that is on the heap

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 351e1cd..fe187a5 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -841,7 +841,7 @@ inline il::String String::substring(il::int_t i0, il::int_t i1) const {
     IL_EXPECT_MEDIUM(isRuneBoundary(i0));
     IL_EXPECT_MEDIUM(isRuneBoundary(i1));
   }
-  return il::String{type(), small_ + i0, i1 - i0};
+  return il::String{type(), data() + i0, i1 - i0};
 }
 
 inline il::StringView String::subview(il::int_t i0, il::int_t i1) const {
@@ -855,7 +855,7 @@ inline il::StringView String::subview(il::int_t i0, il::int_t i1) const {
     IL_EXPECT_MEDIUM(isRuneBoundary(i0));
     IL_EXPECT_MEDIUM(isRuneBoundary(i1));
   }
-  return il::StringView{type(), small_ + i0, i1 - i0};
+  return il::StringView{type(), data() + i0, i1 - i0};
 }
 
 inline il::StringView String::view() const {
-- 
2.43.0


From c59038668d8ebb5b160d7473b8aa9d111a1782f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:13 +0000
Subject: [PATCH 047/134] fix: il::String::endsWith looks at the last character

---
 il/container/string/String.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index fe187a5..cf24b4d 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -915,12 +915,7 @@ inline bool String::endsWith(char c) const {
   if (n == 0) {
     return false;
   }
-  const char* s = data();
-  if (*s == 'c') {
-    return true;
-  } else {
-    return false;
-  }
+  return data()[n - 1] == c;
 }
 
 inline const char* String::asCString() const {
-- 
2.43.0


From 48e591bd952f8029712947c04015ef63d98a705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:13 +0000
Subject: [PATCH 048/134] fix: il::String::isEqual is false for a string that
 only has the other one as a prefix

---
 il/container/string/String.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index cf24b4d..8b9c1d1 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -925,18 +925,19 @@ inline const char* String::asCString() const {
 inline bool String::isEqual(const char* s) const {
   bool ans = true;
   const char* p = data();
+  const il::int_t n = size();
   il::int_t i = 0;
-  while (ans && s[i] != '\0') {
-    if (p[i] != s[i]) {
+  while (ans && i < n) {
+    if (s[i] == '\0' || p[i] != s[i]) {
       ans = false;
     }
     ++i;
   }
-  return ans;
+  return ans && s[n] == '\0';
 }
 
 inline bool String::isEqual(const char* s, il::int_t n) const {
-  bool ans = true;
+  bool ans = (n == size());
   const char* p = data();
   il::int_t i = 0;
   while (ans && i < n) {
-- 
2.43.0


From 9c29fc4a7b86e362132b84aeae3b5cb20ddb732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:13 +0000
Subject: [PATCH 049/134] fix: il::StringView::operator== is false for a prefix

---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 8b9c1d1..a2e7395 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1345,7 +1345,7 @@ inline bool StringView::operator==(const char* string) const {
     }
     ++k;
   }
-  return match;
+  return match && k == size() && string[k] == '\0';
 }
 
 inline const char* StringView::asCString() const {
-- 
2.43.0


From f35cda0e725899888ce0417bda687d4d6e99e508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:13 +0000
Subject: [PATCH 050/134] fix: trail surrogates are not runes

---
 il/container/string/String.h      | 6 +++---
 il/container/string/UTF16String.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index a2e7395..e2a2473 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -236,11 +236,11 @@ class StringView {
 
 inline bool isRune(int rune) {
   const unsigned int code_point_max = 0x0010FFFFu;
-  const unsigned int lead_surrogate_min = 0x0000D800u;
-  const unsigned int lead_surrogate_max = 0x0000DBFFu;
+  const unsigned int surrogate_min = 0x0000D800u;
+  const unsigned int surrogate_max = 0x0000DFFFu;
   const unsigned int urune = static_cast<unsigned int>(rune);
   return urune <= code_point_max &&
-         (urune < lead_surrogate_min || urune > lead_surrogate_max);
+         (urune < surrogate_min || urune > surrogate_max);
 }
 
 inline bool isAscii(const char* s, il::int_t n) {
diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 89cf524..a9aac1f 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -426,11 +426,11 @@ inline void UTF16String::Append(const IL_UTF16CHAR* data, il::int_t n) {
 
 inline bool UTF16String::validRune(int cp) const {
   const unsigned int code_point_max = 0x0010FFFFu;
-  const unsigned int lead_surrogate_min = 0x0000D800u;
-  const unsigned int lead_surrogate_max = 0x0000DBFFu;
+  const unsigned int surrogate_min = 0x0000D800u;
+  const unsigned int surrogate_max = 0x0000DFFFu;
   const unsigned int ucp = static_cast<unsigned int>(cp);
   return ucp <= code_point_max &&
-         (ucp < lead_surrogate_min || ucp > lead_surrogate_max);
+         (ucp < surrogate_min || ucp > surrogate_max);
 }
 }  // namespace il
 
-- 
2.43.0


From bd5ec6db7d295e8f9280d83654579c7ebcef1100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:36 +0000
Subject: [PATCH 051/134] fix: moving an il::UTF16String does not leak the
 storage of either string

---
 il/container/string/UTF16String.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index a9aac1f..de91558 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -133,7 +133,7 @@ inline UTF16String::UTF16String(const UTF16String& s) {
 
 inline UTF16String::UTF16String(UTF16String&& s) {
   const il::int_t size = s.size();
-  if (size <= max_small_size_) {
+  if (s.isSmall()) {
     std::memcpy(data_, s.Data(), 2 * (static_cast<std::size_t>(size) + 1));
     SetSmallSize(size);
   } else {
@@ -175,10 +175,10 @@ inline UTF16String& UTF16String::operator=(const UTF16String& s) {
 inline UTF16String& UTF16String::operator=(UTF16String&& s) {
   if (this != &s) {
     const il::int_t size = s.size();
-    if (size <= max_small_size_) {
-      if (!isSmall()) {
-        il::deallocate(large_.data);
-      }
+    if (!isSmall()) {
+      il::deallocate(large_.data);
+    }
+    if (s.isSmall()) {
       std::memcpy(data_, s.Data(), 2 * (static_cast<std::size_t>(size) + 1));
       SetSmallSize(size);
     } else {
-- 
2.43.0


From b35f0c139ea14af19ab25a4cf1eb58ae6cd88544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:36 +0000
Subject: [PATCH 052/134] fix: il::UTF16String can be assigned to itself

---
 il/container/string/UTF16String.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index de91558..4ba7592 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -146,6 +146,10 @@ inline UTF16String::UTF16String(UTF16String&& s) {
 }
 
 inline UTF16String& UTF16String::operator=(const UTF16String& s) {
+  if (this == &s) {
+    return *this;
+  }
+
   const il::int_t size = s.size();
   if (size <= max_small_size_) {
     if (!isSmall()) {
-- 
2.43.0


From f1b668ff49d82b5aa785fe4cc3c69a6bcbf55314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:36 +0000
Subject: [PATCH 053/134] fix: il::UTF16String::Append of n characters reserves
 the memory it writes to

---
 il/container/string/UTF16String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 4ba7592..e3d03c1 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -276,7 +276,7 @@ inline void UTF16String::Append(il::int_t n, char c) {
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
 
   const il::int_t old_size = size();
-  const il::int_t new_size = old_size + 1;
+  const il::int_t new_size = old_size + n;
   const il::int_t new_capacity = il::max(new_size, 2 * old_size);
   Reserve(new_capacity);
   unsigned short* data = Data() + old_size;
-- 
2.43.0


From d5f43fce9636ce2d5b5a4be6b0e4ea664f3bf38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:36 +0000
Subject: [PATCH 054/134] fix: il::UTF16String::Append of n runes appends them

---
 il/container/string/UTF16String.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index e3d03c1..d85d1b8 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -325,8 +325,9 @@ inline void UTF16String::Append(il::int_t n, int cp) {
   IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_FAST(validRune(cp));
 
-  IL_UNUSED(n);
-  IL_UNUSED(cp);
+  for (il::int_t i = 0; i < n; ++i) {
+    Append(cp);
+  }
 }
 
 inline const unsigned short* UTF16String::data() const {
-- 
2.43.0


From a90758565b6859f898c8b5244ee20c2a70c502b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:36 +0000
Subject: [PATCH 055/134] fix: il::UTF16String::Append accepts the string
 itself

---
 il/container/string/UTF16String.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index d85d1b8..e3bffda 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -21,6 +21,8 @@
 
 // <cstring> is needed for memcpy
 #include <cstring>
+// <utility> is needed for std::move
+#include <utility>
 
 #include <il/core.h>
 #include <il/core/memory/allocate.h>
@@ -416,7 +418,15 @@ inline void UTF16String::Append(const IL_UTF16CHAR* data, il::int_t n) {
 
   const il::int_t old_size = size();
   const il::int_t new_capacity = il::max(old_size + n, 2 * old_size);
-  Reserve(new_capacity);
+  if (new_capacity > capacity()) {
+    // The data to append might be part of this string
+    UTF16String s{};
+    s.Reserve(new_capacity);
+    s.Append(asWString(), old_size);
+    s.Append(data, n);
+    *this = std::move(s);
+    return;
+  }
 
   if (isSmall()) {
     std::memcpy(data_ + old_size, data, 2 * static_cast<std::size_t>(n));
-- 
2.43.0


From d1e9b888ad772838cc5e19f470c5f8fda21bb685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:36 +0000
Subject: [PATCH 056/134] fix: the conversions between UTF-8 and UTF-16 do not
 append a null character

---
 il/container/string/unicode.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/il/container/string/unicode.h b/il/container/string/unicode.h
index 34e6728..37f390c 100644
--- a/il/container/string/unicode.h
+++ b/il/container/string/unicode.h
@@ -92,7 +92,6 @@ inline il::UTF16String toUtf16(const il::String& string) {
   for (il::int_t i = 0; i < view.size(); i = view.nextRune(i)) {
     ans.Append(view.rune(i));
   }
-  ans.Append('\0');
   return ans;
 }
 
@@ -102,7 +101,6 @@ inline il::String toUtf8(const il::UTF16String& string) {
   for (il::int_t i = 0; i < string.size(); i = string.nextRune(i)) {
     ans.Append(string.rune(i));
   }
-  ans.Append('\0');
   return ans;
 }
 
-- 
2.43.0


From 74b98a69bd0c451d616cf66c2c3d99fc338a7a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:36 +0000
Subject: [PATCH 057/134] fix: il::toString of large integers

---
 il/container/string/algorithmString.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/string/algorithmString.h b/il/container/string/algorithmString.h
index 20a852e..ef7b287 100644
--- a/il/container/string/algorithmString.h
+++ b/il/container/string/algorithmString.h
@@ -26,8 +26,9 @@
 namespace il {
 
 inline il::String toString(il::int_t n) {
-  il::String ans{il::unsafe, 11};
-  const il::int_t m = std::snprintf(ans.Data(), 11 + 1, "%td", n);
+  // The largest integers have 19 digits and might have a sign
+  il::String ans{il::unsafe, 20};
+  const il::int_t m = std::snprintf(ans.Data(), 20 + 1, "%td", n);
   ans.SetInvariant(il::unsafe, il::StringType::Ascii, m);
 
   IL_ENSURE(m > 0);
-- 
2.43.0


From b9781cda0f0415efca9917a0f8d07c8f86e8289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 058/134] fix: LU::solve checks the size of the right-hand side
 and uses the stride of the matrix

---
 il/linearAlgebra/dense/factorization/LU.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index d87cabb..4d7904f 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -239,12 +239,13 @@ inline il::int_t LU<il::Array2D<double>>::size(il::int_t d) const {
 inline il::Array<double> LU<il::Array2D<double>>::solve(
     il::Array<double> y) const {
   IL_EXPECT_FAST(lu_.size(0) == lu_.size(1));
+  IL_EXPECT_FAST(lu_.size(0) == y.size());
 
   const int layout = LAPACK_COL_MAJOR;
   const char trans = 'N';
   const lapack_int n = static_cast<lapack_int>(lu_.size(0));
   const lapack_int nrhs = 1;
-  const lapack_int lda = static_cast<lapack_int>(lu_.size(0));
+  const lapack_int lda = static_cast<lapack_int>(lu_.stride(1));
   const lapack_int ldy = n;
   const lapack_int lapack_error = LAPACKE_dgetrs(
       layout, trans, n, nrhs, lu_.data(), lda, ipiv_.data(), y.Data(), ldy);
-- 
2.43.0


From 577c9761927f5466606db2ab715c92a22b5b558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 059/134] fix: LU::solve uses the stride of the right-hand
 sides

---
 il/linearAlgebra/dense/factorization/LU.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index 4d7904f..180e49b 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -264,7 +264,7 @@ inline il::Array2D<double> LU<il::Array2D<double>>::solve(
   const lapack_int n = static_cast<lapack_int>(lu_.size(0));
   const lapack_int nrhs = static_cast<lapack_int>(y.size(1));
   const lapack_int lda = static_cast<lapack_int>(lu_.stride(1));
-  const lapack_int ldy = n;
+  const lapack_int ldy = static_cast<lapack_int>(y.stride(1));
   const lapack_int lapack_error = LAPACKE_dgetrs(
       layout, trans, n, nrhs, lu_.data(), lda, ipiv_.data(), y.Data(), ldy);
   IL_EXPECT_FAST(lapack_error == 0);
-- 
2.43.0


From c5502d87637733a55c2db2ff6be36ad961eb6c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 060/134] fix: the determinant takes the row exchanges into
 account

---
 il/linearAlgebra/dense/factorization/LU.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index 180e49b..a20cf23 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -292,6 +292,9 @@ inline double LU<il::Array2D<double>>::determinant() const {
   double det = 1.0;
   for (il::int_t i = 0; i < lu_.size(0); ++i) {
     det *= lu_(i, i);
+    if (ipiv_[i] != i + 1) {
+      det = -det;
+    }
   }
 
   return det;
-- 
2.43.0


From ea0ce74a73d50dc667de71011480897391848184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 061/134] fix: linearSolve of a band matrix hands LAPACK the
 band in its layout

---
 .../dense/factorization/linearSolve.h         | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/linearSolve.h b/il/linearAlgebra/dense/factorization/linearSolve.h
index fbda6c0..21b8571 100644
--- a/il/linearAlgebra/dense/factorization/linearSolve.h
+++ b/il/linearAlgebra/dense/factorization/linearSolve.h
@@ -93,20 +93,29 @@ inline il::Array<double> linearSolve(il::BandArray2C<double> A,
                                      il::Status &status) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
   IL_EXPECT_FAST(y.size() == A.size(1));
-  IL_EXPECT_FAST(A.capacityRight() >= A.widthLeft() + A.widthRight());
+
+  // LAPACK stores the diagonals by columns below the room for the fill-in
+  il::Array2D<double> band{2 * A.widthLeft() + A.widthRight() + 1, A.size(1),
+                           0.0};
+  for (il::int_t i = 0; i < A.size(0); ++i) {
+    for (il::int_t k = -A.widthLeft(); k <= A.widthRight(); ++k) {
+      if (i + k >= 0 && i + k < A.size(1)) {
+        band(A.widthLeft() + A.widthRight() - k, i + k) = A(i, k);
+      }
+    }
+  }
 
   il::Array<lapack_int> ipiv{A.size(1)};
 
-  const int layout{LAPACK_ROW_MAJOR};
+  const int layout{LAPACK_COL_MAJOR};
   const lapack_int n{static_cast<lapack_int>(A.size(1))};
   const lapack_int kl{static_cast<lapack_int>(A.widthLeft())};
   const lapack_int ku{static_cast<lapack_int>(A.widthRight())};
   const lapack_int nrhs = 1;
-  const lapack_int ldab{
-      static_cast<lapack_int>(A.widthLeft() + 1 + A.capacityRight())};
-  const lapack_int ldb = 1;
+  const lapack_int ldab{static_cast<lapack_int>(band.stride(1))};
+  const lapack_int ldb{n};
   const lapack_int lapack_error{LAPACKE_dgbsv(
-      layout, n, kl, ku, nrhs, A.Data(), ldab, ipiv.Data(), y.Data(), ldb)};
+      layout, n, kl, ku, nrhs, band.Data(), ldab, ipiv.Data(), y.Data(), ldb)};
 
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
-- 
2.43.0


From e5dc2e08c7a50a72fae81750cc39432e004515b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 062/134] fix: safeDivision clears the error flag when the
 division succeeds

---
 il/core/math/safe_arithmetic.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/core/math/safe_arithmetic.h b/il/core/math/safe_arithmetic.h
index 0e68996..45d6f5d 100644
--- a/il/core/math/safe_arithmetic.h
+++ b/il/core/math/safe_arithmetic.h
@@ -123,6 +123,7 @@ inline int safeDivision(int a, int b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
@@ -272,6 +273,7 @@ inline long safeDivision(long a, long b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
@@ -402,6 +404,7 @@ inline long long safeDivision(long long a, long long b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
-- 
2.43.0


From 7ca2be83683febefa7487a80dceab861d1eb0cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 063/134] fix: safeProduct2Positive reports the products that
 overflow

---
 il/core/math/safe_arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/core/math/safe_arithmetic.h b/il/core/math/safe_arithmetic.h
index 45d6f5d..4be47d8 100644
--- a/il/core/math/safe_arithmetic.h
+++ b/il/core/math/safe_arithmetic.h
@@ -209,7 +209,7 @@ inline long safeDifference(long a, long b, il::io_t, bool& error) {
 
 inline long safeProduct2Positive(long a, il::io_t, bool& error) {
   const unsigned long ua = static_cast<unsigned long>(a);
-  constexpr unsigned long max = static_cast<unsigned long>(2)
+  constexpr unsigned long max = static_cast<unsigned long>(1)
                                 << (sizeof(unsigned long) * 8 - 2);
   if (ua < max) {
     error = false;
-- 
2.43.0


From e0a00387ec78f23e337756fd19d4c972f779f183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 064/134] fix: min, max and maxAbs of an array keep the element
 type

---
 il/algorithm/algorithmArray.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 606ab1c..8cac49c 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -31,7 +31,7 @@ template <typename T>
 T min(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t min_value = v[0];
+  T min_value = v[0];
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (v[i] < min_value) {
       min_value = v[i];
@@ -44,7 +44,7 @@ template <typename T>
 T min(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t min_value = v[range.begin];
+  T min_value = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] < min_value) {
       min_value = v[i];
@@ -57,7 +57,7 @@ template <typename T>
 T max(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t max_value = v[0];
+  T max_value = v[0];
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (v[i] > max_value) {
       max_value = v[i];
@@ -70,7 +70,7 @@ template <typename T>
 T max(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t max_value = v[range.begin];
+  T max_value = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] > max_value) {
       max_value = v[i];
@@ -83,7 +83,7 @@ template <typename T>
 T maxAbs(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t max_value = il::abs(v[0]);
+  T max_value = il::abs(v[0]);
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (il::abs(v[i]) > max_value) {
       max_value = il::abs(v[i]);
@@ -96,7 +96,7 @@ template <typename T>
 T maxAbs(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t max_value = il::abs(v[range.begin]);
+  T max_value = il::abs(v[range.begin]);
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] > max_value) {
       max_value = il::abs(v[i]);
-- 
2.43.0


From f8d0d794bd5c0e4f83b90918dae4d802cd895f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 065/134] fix: maxAbs of a range compares absolute values

---
 il/algorithm/algorithmArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 8cac49c..632a33a 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -98,7 +98,7 @@ T maxAbs(const il::Array<T>& v, il::Range range) {
 
   T max_value = il::abs(v[range.begin]);
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
-    if (v[i] > max_value) {
+    if (il::abs(v[i]) > max_value) {
       max_value = il::abs(v[i]);
     }
   }
-- 
2.43.0


From 27029ffc6b50a610deba6372515f972e1c4ba1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 066/134] fix: minMax of a range starts from the first element
 of the range

---
 il/algorithm/algorithmArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 632a33a..db487e3 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -221,11 +221,11 @@ MinMax<T> minMax(const il::Array<T>& v) {
 
 template <typename T>
 MinMax<T> minMax(const il::Array<T>& v, il::Range range) {
-  IL_EXPECT_FAST(v.size() > 0);
+  IL_EXPECT_FAST(range.begin < range.end);
 
   MinMax<T> ans{};
   ans.min = v[range.begin];
-  ans.max = v[range.end];
+  ans.max = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] < ans.min) {
       ans.min = v[i];
-- 
2.43.0


From 7b85b9fc572f7c0cd1c94c3264099bbc798b892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 067/134] fix: norm of a tridiagonal matrix of order 0 or 1

---
 il/linearAlgebra/dense/norm.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/dense/norm.h b/il/linearAlgebra/dense/norm.h
index b3badce..fc9e936 100644
--- a/il/linearAlgebra/dense/norm.h
+++ b/il/linearAlgebra/dense/norm.h
@@ -149,11 +149,15 @@ double norm(const il::TriDiagonal<T>& A, Norm norm_type) {
   switch (norm_type) {
     case Norm::Linf: {
       il::Array<T> sum_row{n};
-      sum_row[0] = il::abs(A(0, 0)) + il::abs(A(0, 1));
-      for (il::int_t i = 1; i < n - 1; ++i) {
-        sum_row[i] = il::abs(A(i, -1)) + il::abs(A(i, 0)) + il::abs(A(i, 1));
+      for (il::int_t i = 0; i < n; ++i) {
+        sum_row[i] = il::abs(A(i, 0));
+        if (i > 0) {
+          sum_row[i] += il::abs(A(i, -1));
+        }
+        if (i < n - 1) {
+          sum_row[i] += il::abs(A(i, 1));
+        }
       }
-      sum_row[n - 1] = il::abs(A(n - 1, -1)) + il::abs(A(n - 1, 0));
       for (il::int_t i = 0; i < sum_row.size(); ++i) {
         ans = il::max(ans, sum_row[i]);
       }
-- 
2.43.0


From a69ba506fe4ce9951f65dce5e9858dd6a9e112cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 068/134] fix: view of an array without storage

---
 il/container/2d/Array2C.h | 6 ++++--
 il/container/2d/Array2D.h | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 233e244..7b87fb0 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -1005,7 +1005,8 @@ il::int_t Array2C<T>::alignment() const {
 }
 template <typename T>
 il::Array2CView<T> Array2C<T>::view() const {
-  const il::int_t the_stride = capacity(1);
+  // The array without storage has a stride of 0, which no view accepts
+  const il::int_t the_stride = capacity(1) > 0 ? capacity(1) : 1;
   return il::Array2CView<T>{data_, size(0), size(1), the_stride, 0, 0};
 }
 
@@ -1045,7 +1046,8 @@ il::ArrayView<T> Array2C<T>::view(il::int_t i0, il::Range range1) const {
 
 template <typename T>
 il::Array2CEdit<T> Array2C<T>::Edit() {
-  const il::int_t the_stride = capacity(1);
+  // The array without storage has a stride of 0, which no view accepts
+  const il::int_t the_stride = capacity(1) > 0 ? capacity(1) : 1;
   return il::Array2CEdit<T>{Data(), size(0), size(1), the_stride, 0, 0};
 }
 
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index ff55aaf..c984924 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1271,7 +1271,9 @@ il::int_t Array2D<T>::alignment() const {
 
 template <typename T>
 il::Array2DView<T> Array2D<T>::view() const {
-  return il::Array2DView<T>{data(), size(0), size(1), stride(1), 0, 0};
+  // The array without storage has a stride of 0, which no view accepts
+  const il::int_t the_stride = stride(1) > 0 ? stride(1) : 1;
+  return il::Array2DView<T>{data(), size(0), size(1), the_stride, 0, 0};
 }
 
 template <typename T>
@@ -1310,7 +1312,9 @@ il::Array2DView<T> Array2D<T>::view(il::Range range0, il::Range range1) const {
 
 template <typename T>
 il::Array2DEdit<T> Array2D<T>::Edit() {
-  return il::Array2DEdit<T>{Data(), size(0), size(1), stride(1), 0, 0};
+  // The array without storage has a stride of 0, which no view accepts
+  const il::int_t the_stride = stride(1) > 0 ? stride(1) : 1;
+  return il::Array2DEdit<T>{Data(), size(0), size(1), the_stride, 0, 0};
 }
 
 template <typename T>
-- 
2.43.0


From f8d163c946222ec5838ba4d329c6847a1f715f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 069/134] fix: products of empty operands do not count as
 overlapping

---
 il/linearAlgebra/dense/blas/blas.h | 48 +++++++++++++++---------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index 91a09f5..87c145f 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -362,7 +362,7 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() != y.data() || y.size() == 0);
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
@@ -397,7 +397,7 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() != y.data() || y.size() == 0);
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
@@ -434,7 +434,7 @@ inline void blas(std::complex<float> alpha,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() != y.data() || y.size() == 0);
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
@@ -477,7 +477,7 @@ inline void blas(std::complex<double> alpha,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() != y.data() || y.size() == 0);
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
@@ -519,7 +519,7 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() != y.data() || y.size() == 0);
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
@@ -554,7 +554,7 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() != y.data() || y.size() == 0);
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
@@ -591,7 +591,7 @@ inline void blas(std::complex<float> alpha,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() != y.data() || y.size() == 0);
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
@@ -634,7 +634,7 @@ inline void blas(std::complex<double> alpha,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() != y.data() || y.size() == 0);
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
@@ -683,8 +683,8 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() != C.data() || C.size(0) == 0 || C.size(1) == 0);
+  IL_EXPECT_FAST(B.data() != C.data() || C.size(0) == 0 || C.size(1) == 0);
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -740,8 +740,8 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() != C.data() || C.size(0) == 0 || C.size(1) == 0);
+  IL_EXPECT_FAST(B.data() != C.data() || C.size(0) == 0 || C.size(1) == 0);
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -799,8 +799,8 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() != C.data() || C.size(0) == 0 || C.size(1) == 0);
+  IL_EXPECT_FAST(B.data() != C.data() || C.size(0) == 0 || C.size(1) == 0);
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -873,8 +873,8 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() != C.data() || C.size(0) == 0 || C.size(1) == 0);
+  IL_EXPECT_FAST(B.data() != C.data() || C.size(0) == 0 || C.size(1) == 0);
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -945,8 +945,8 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() != C.data() || C.size(0) == 0 || C.size(1) == 0);
+  IL_EXPECT_FAST(B.data() != C.data() || C.size(0) == 0 || C.size(1) == 0);
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -1002,8 +1002,8 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() != C.data() || C.size(0) == 0 || C.size(1) == 0);
+  IL_EXPECT_FAST(B.data() != C.data() || C.size(0) == 0 || C.size(1) == 0);
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -1061,8 +1061,8 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() != C.data() || C.size(0) == 0 || C.size(1) == 0);
+  IL_EXPECT_FAST(B.data() != C.data() || C.size(0) == 0 || C.size(1) == 0);
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -1135,8 +1135,8 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() != C.data() || C.size(0) == 0 || C.size(1) == 0);
+  IL_EXPECT_FAST(B.data() != C.data() || C.size(0) == 0 || C.size(1) == 0);
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
-- 
2.43.0


From 7ef3837d293fc712b2ccb57eb1ad93b20e9b4b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 070/134] fix: functions defined in Cg.h, Eigen.h,
 luDecomposition.h, qrDecomposition.h and Pardiso.h are inline

---
 il/linearAlgebra/dense/factorization/Eigen.h  |  4 +--
 .../dense/factorization/luDecomposition.h     |  4 +--
 .../dense/factorization/qrDecomposition.h     |  4 +--
 il/linearAlgebra/matrixFree/solver/Cg.h       | 28 +++++++++----------
 .../sparse/factorization/Pardiso.h            |  8 +++---
 5 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/Eigen.h b/il/linearAlgebra/dense/factorization/Eigen.h
index 635a41e..7992f90 100644
--- a/il/linearAlgebra/dense/factorization/Eigen.h
+++ b/il/linearAlgebra/dense/factorization/Eigen.h
@@ -53,7 +53,7 @@ class Eigen<il::Array2D<double>> {
   il::Array<std::complex<double>> eigenValue() const;
 };
 
-Eigen<il::Array2D<double>>::Eigen(il::Array2D<double> A, il::io_t,
+inline Eigen<il::Array2D<double>>::Eigen(il::Array2D<double> A, il::io_t,
                                   il::Status& status)
     : eigen_value_{}, eigen_value_r_{}, eigen_value_i_{} {
   IL_EXPECT_FAST(A.size(0) > 0);
@@ -92,7 +92,7 @@ Eigen<il::Array2D<double>>::Eigen(il::Array2D<double> A, il::io_t,
   }
 }
 
-il::Array<std::complex<double>> Eigen<il::Array2D<double>>::eigenValue() const {
+inline il::Array<std::complex<double>> Eigen<il::Array2D<double>>::eigenValue() const {
   il::Array<std::complex<double>> ans{eigen_value_r_.size()};
 
   for (il::int_t i = 0; i < ans.size(); ++i) {
diff --git a/il/linearAlgebra/dense/factorization/luDecomposition.h b/il/linearAlgebra/dense/factorization/luDecomposition.h
index c796dea..05f6c2c 100644
--- a/il/linearAlgebra/dense/factorization/luDecomposition.h
+++ b/il/linearAlgebra/dense/factorization/luDecomposition.h
@@ -33,7 +33,7 @@
 
 namespace il {
 
-void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
+inline void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
                      il::Array2DEdit<double> A) {
   IL_EXPECT_MEDIUM(A.size(0) == A.size(1));
   IL_EXPECT_MEDIUM(A.size(0) == pivot.size());
@@ -48,7 +48,7 @@ void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
   IL_EXPECT_FAST(lapack_error == 0);
 }
 
-void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
+inline void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
                      il::Array2DEdit<std::complex<double>> A) {
   IL_EXPECT_MEDIUM(A.size(0) == A.size(1));
   IL_EXPECT_MEDIUM(A.size(0) == pivot.size());
diff --git a/il/linearAlgebra/dense/factorization/qrDecomposition.h b/il/linearAlgebra/dense/factorization/qrDecomposition.h
index d492fa1..d9c7c39 100644
--- a/il/linearAlgebra/dense/factorization/qrDecomposition.h
+++ b/il/linearAlgebra/dense/factorization/qrDecomposition.h
@@ -33,7 +33,7 @@
 
 namespace il {
 
-void qrDecomposition(il::io_t, il::ArrayEdit<double> tau,
+inline void qrDecomposition(il::io_t, il::ArrayEdit<double> tau,
                      il::Array2DEdit<double> A) {
   IL_EXPECT_MEDIUM(tau.size() == il::min(A.size(0), A.size(1)));
 
@@ -46,7 +46,7 @@ void qrDecomposition(il::io_t, il::ArrayEdit<double> tau,
   IL_EXPECT_FAST(lapack_error == 0);
 }
 
-void qrDecomposition(il::io_t, il::ArrayEdit<std::complex<double>> tau,
+inline void qrDecomposition(il::io_t, il::ArrayEdit<std::complex<double>> tau,
                      il::Array2DEdit<std::complex<double>> A) {
   IL_EXPECT_MEDIUM(tau.size() == il::min(A.size(0), A.size(1)));
 
diff --git a/il/linearAlgebra/matrixFree/solver/Cg.h b/il/linearAlgebra/matrixFree/solver/Cg.h
index 8d0b3af..5aa5196 100644
--- a/il/linearAlgebra/matrixFree/solver/Cg.h
+++ b/il/linearAlgebra/matrixFree/solver/Cg.h
@@ -90,7 +90,7 @@ class Cg<double> {
   il::int_t maxNbIterations() const;
 };
 
-Cg<double>::Cg(const il::FunctorArray<double>& A) {
+inline Cg<double>::Cg(const il::FunctorArray<double>& A) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
 
   il::int_t n = A.size(0);
@@ -108,7 +108,7 @@ Cg<double>::Cg(const il::FunctorArray<double>& A) {
   nb_iterations_ = -1;
 }
 
-Cg<double>::Cg(const il::FunctorArray<double>& A,
+inline Cg<double>::Cg(const il::FunctorArray<double>& A,
                const il::FunctorArray<double>& B) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
   IL_EXPECT_FAST(B.size(0) == B.size(1));
@@ -129,7 +129,7 @@ Cg<double>::Cg(const il::FunctorArray<double>& A,
   nb_iterations_ = -1;
 }
 
-il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
+inline il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
                                     il::Status& status) {
   IL_EXPECT_FAST(y.size() == n_);
 
@@ -207,7 +207,7 @@ il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
   return x;
 }
 
-void Cg<double>::SetToSolve(il::ArrayView<double> y) {
+inline void Cg<double>::SetToSolve(il::ArrayView<double> y) {
   IL_EXPECT_FAST(y.size() == n_);
 
   for (il::int_t i = 0; i < n_; ++i) {
@@ -298,7 +298,7 @@ void Cg<double>::SetToSolve(il::ArrayView<double> y) {
   IL_ENSURE(rci_request_ == 0);
 }
 
-void Cg<double>::Next() {
+inline void Cg<double>::Next() {
   bool stop_loop = false;
   il::int_t initial_nb_iterations = nb_iterations_;
 
@@ -341,39 +341,39 @@ void Cg<double>::Next() {
   }
 }
 
-double Cg<double>::trueResidualNorm() const { return norm_residual_; }
+inline double Cg<double>::trueResidualNorm() const { return norm_residual_; }
 
-il::int_t Cg<double>::nbIterations() const { return nb_iterations_; }
+inline il::int_t Cg<double>::nbIterations() const { return nb_iterations_; }
 
-void Cg<double>::getSolution(il::io_t, il::ArrayEdit<double> x) {
+inline void Cg<double>::getSolution(il::io_t, il::ArrayEdit<double> x) {
   for (il::int_t i = 0; i < n_; ++i) {
     x[i] = x_[i];
   }
 }
 
-void Cg<double>::SetRelativePrecision(double relative_precision) {
+inline void Cg<double>::SetRelativePrecision(double relative_precision) {
   IL_EXPECT_MEDIUM(relative_precision >= 0.0);
 
   relative_precision_ = relative_precision;
 }
 
-void Cg<double>::SetAbsolutionPrecision(double absolute_precision) {
+inline void Cg<double>::SetAbsolutionPrecision(double absolute_precision) {
   IL_EXPECT_MEDIUM(absolute_precision >= 0.0);
 
   absolute_precision_ = absolute_precision;
 }
 
-void Cg<double>::SetMaxNbIterations(il::int_t max_nb_iterations) {
+inline void Cg<double>::SetMaxNbIterations(il::int_t max_nb_iterations) {
   IL_EXPECT_MEDIUM(max_nb_iterations >= 0);
 
   max_nb_iterations_ = max_nb_iterations;
 }
 
-double Cg<double>::relativePrecision() const { return relative_precision_; }
+inline double Cg<double>::relativePrecision() const { return relative_precision_; }
 
-double Cg<double>::absolutePrecision() const { return absolute_precision_; }
+inline double Cg<double>::absolutePrecision() const { return absolute_precision_; }
 
-il::int_t Cg<double>::maxNbIterations() const { return max_nb_iterations_; }
+inline il::int_t Cg<double>::maxNbIterations() const { return max_nb_iterations_; }
 
 }  // namespace il
 
diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index 0878034..da303d4 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -67,7 +67,7 @@ void PardisoSizeIntSelector<Int>::pardiso_int_t(
 }
 
 template <>
-void PardisoSizeIntSelector<int>::pardiso_int_t(
+inline void PardisoSizeIntSelector<int>::pardiso_int_t(
     _MKL_DSS_HANDLE_t pt, const int *maxfct, const int *mnum, const int *mtype,
     const int *phase, const int *n, const void *a, const int *ia, const int *ja,
     int *perm, const int *nrhs, int *iparm, const int *msglvl, void *b, void *x,
@@ -77,7 +77,7 @@ void PardisoSizeIntSelector<int>::pardiso_int_t(
 }
 
 template <>
-void PardisoSizeIntSelector<std::ptrdiff_t>::pardiso_int_t(
+inline void PardisoSizeIntSelector<std::ptrdiff_t>::pardiso_int_t(
     _MKL_DSS_HANDLE_t pt, const std::ptrdiff_t *maxfct,
     const std::ptrdiff_t *mnum, const std::ptrdiff_t *mtype,
     const std::ptrdiff_t *phase, const std::ptrdiff_t *n, const void *a,
@@ -292,7 +292,7 @@ inline Pardiso::Pardiso() {
 
 inline Pardiso::~Pardiso() { Release(); }
 
-void Pardiso::SymbolicFactorization(
+inline void Pardiso::SymbolicFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
   n_ = A.size(0);
@@ -315,7 +315,7 @@ void Pardiso::SymbolicFactorization(
   matrix_element_ = A.elementData();
 }
 
-void Pardiso::NumericalFactorization(
+inline void Pardiso::NumericalFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
   IL_EXPECT_FAST(matrix_element_ = A.elementData());
   IL_EXPECT_FAST(is_symbolic_factorization_);
-- 
2.43.0


From 3abb29c7d148187351c4886bf3dc81000b7192f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 071/134] fix: Gmres.h includes the arrays it uses

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 8e51d5f..700b244 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -19,6 +19,7 @@
 #ifndef IL_GMRES_H
 #define IL_GMRES_H
 
+#include <il/Array.h>
 #include <il/ArrayView.h>
 #include <il/StaticArray.h>
 
-- 
2.43.0


From b6b1352260086fcc22ada100ded1b68a111377b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 072/134] fix: File.h compiles, the buffer is read into through
 Data

---
 il/io/File.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/File.h b/il/io/File.h
index 9e5db6e..de58d49 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -168,7 +168,7 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
       // to be saved because if fread fails, its position is undefined.
       const long previous_position = std::ftell(file_);
       const std::size_t full_buffer_read = std::fread(
-          buffer_.data(), static_cast<std::size_t>(buffer_.size()), 1, file_);
+          buffer_.Data(), static_cast<std::size_t>(buffer_.size()), 1, file_);
       if (full_buffer_read == 1) {
         std::memcpy(static_cast<unsigned char*>(p) + nb_bytes_from_buffer,
                     buffer_.data(), static_cast<std::size_t>(nb_bytes_to_read));
-- 
2.43.0


From 7f86a5667b02da5666049be1b7caf11ed3830a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 073/134] fix: ppm.h compiles and its function is inline

---
 il/io/ppm/ppm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 449e98c..1903491 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -34,7 +34,7 @@ struct Pixel {
   unsigned char blue;
 };
 
-il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
+inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
                                il::Status& status) {
   il::Array2D<il::Pixel> image{};
 
@@ -113,7 +113,7 @@ il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
 
   // read pixel data from file
   image.Resize(width, height);
-  if (std::fread(image.data(), 3 * width, height, fp) != height) {
+  if (std::fread(image.Data(), 3 * width, height, fp) != height) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     image.Resize(0, 0);
     return image;
-- 
2.43.0


From 1d439c3f8e3cdc815cc88b6c441feb9ce1142d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 074/134] fix: png.h includes the header that exists

---
 il/png.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/png.h b/il/png.h
index c6283fc..3d46151 100644
--- a/il/png.h
+++ b/il/png.h
@@ -16,4 +16,4 @@
 //
 //==============================================================================
 
-#include <il/io/png.h>
+#include <il/io/png/png.h>
-- 
2.43.0


From fbf1e074a7339995151aba7b8ee6e64bd0dfb916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 075/134] fix: Gmres.h includes Status.h

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 700b244..146a193 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -22,6 +22,7 @@
 #include <il/Array.h>
 #include <il/ArrayView.h>
 #include <il/StaticArray.h>
+#include <il/Status.h>
 
 #include "mkl_blas.h"
 #include "mkl_rci.h"
-- 
2.43.0


From af87decc870f3e18be50eaebc6d0b18c5cfed201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 076/134] fix: il::Pardiso checks the matrix it is given
 instead of storing it in the expectation

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index da303d4..ce56a1d 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -317,7 +317,7 @@ inline void Pardiso::SymbolicFactorization(
 
 inline void Pardiso::NumericalFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
-  IL_EXPECT_FAST(matrix_element_ = A.elementData());
+  IL_EXPECT_FAST(matrix_element_ == A.elementData());
   IL_EXPECT_FAST(is_symbolic_factorization_);
   IL_EXPECT_FAST(A.size(0) == n_);
   IL_EXPECT_FAST(A.size(1) == n_);
@@ -339,7 +339,7 @@ inline void Pardiso::NumericalFactorization(
 inline il::Array<double> Pardiso::Solve(
     const il::SparseMatrixCSR<il::int_t, double> &A,
     const il::Array<double> &y) {
-  IL_EXPECT_FAST(matrix_element_ = A.elementData());
+  IL_EXPECT_FAST(matrix_element_ == A.elementData());
   IL_EXPECT_FAST(is_numerical_factorization_);
   IL_EXPECT_FAST(A.size(0) == n_);
   IL_EXPECT_FAST(A.size(1) == n_);
@@ -363,7 +363,7 @@ inline il::Array<double> Pardiso::Solve(
 inline il::Array<double> Pardiso::SolveIterative(
     const il::SparseMatrixCSR<il::int_t, double> &A,
     const il::Array<double> &y) {
-  IL_EXPECT_FAST(matrix_element_ = A.elementData());
+  IL_EXPECT_FAST(matrix_element_ == A.elementData());
   IL_EXPECT_FAST(is_numerical_factorization_);
   IL_EXPECT_FAST(A.size(0) == n_);
   IL_EXPECT_FAST(A.size(1) == n_);
-- 
2.43.0


From 972cde3ec61b96c5eeca82525ce1d3d0522cd581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 077/134] fix: sobol.h compiles

---
 il/random/sobol.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/random/sobol.h b/il/random/sobol.h
index 006ee2c..b447314 100644
--- a/il/random/sobol.h
+++ b/il/random/sobol.h
@@ -35,8 +35,8 @@ inline il::Array2C<double> sobol(il::int_t nb_point, il::int_t dim, double a,
   const MKL_INT brng = VSL_BRNG_SOBOL;
   int error_code;
   error_code = vslNewStream(&stream, brng, static_cast<MKL_INT>(dim));
-  error_code = vdRngUniform(VSL_RNG_METHOD_UNIFORM_STD, stream, dim * nb_point,
-                            A.data(), a, b);
+  error_code = vdRngUniform(VSL_RNG_METHOD_UNIFORM_STD, stream,
+                            static_cast<MKL_INT>(dim * nb_point), A.Data(), a, b);
   error_code = vslDeleteStream(&stream);
 
   return A;
-- 
2.43.0


From d488d0cf3e9edc5fb0a07d9942a663ca2502e629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 078/134] fix: toml parser sets the error before the source of
 the error

---
 il/io/toml/toml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 04dab1a..3219abc 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -30,8 +30,8 @@ il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
   while (string.isEmpty() || string[0] == '#' || string.startsWithNewLine()) {
     const char* error = std::fgets(buffer_line_, max_line_length_ + 1, file_);
     if (error == nullptr) {
-      IL_SET_SOURCE(status);
       status.SetError(il::Error::ParseUnclosedArray);
+      IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return string;
     }
@@ -50,8 +50,8 @@ void TomlParser::checkEndOfLineOrComment(il::StringView string, il::io_t,
                                          il::Status& status) {
   if (!string.isEmpty() && (!string.startsWithNewLine()) &&
       (string[0] != '#')) {
-    IL_SET_SOURCE(status);
     status.SetError(il::Error::ParseUnidentifiedTrailingCharacter);
+    IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
   } else {
     status.SetOk();
-- 
2.43.0


From b5a22df7c6b930af369e5848189cc627fa422188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 079/134] fix: toml parser returns after the error of a table
 without name

---
 il/io/toml/toml.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 3219abc..0ddb310 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -753,6 +753,7 @@ void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
     status.SetError(il::Error::ParseTable);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
+    return;
   }
 
   il::String full_table_name{};
-- 
2.43.0


From eed5ab48d329d7c56f060d38dbdc5087929efe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 080/134] fix: toml parser closes the file on trailing
 characters

---
 il/io/toml/toml.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 0ddb310..0bb7df9 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -966,6 +966,7 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
       checkEndOfLineOrComment(line, il::io, parse_status);
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
+        std::fclose(file_);
         return root_toml;
       }
     }
-- 
2.43.0


From d4416c2f7da57477c4ca175d714e3b17d9ce2f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 081/134] fix: toml writer reports the failure of a write

---
 il/io/toml/toml.h | 161 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 130 insertions(+), 31 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index bb8d1ff..81ea3b4 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -136,6 +136,10 @@ inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
   }
   const int error5 = std::fputs(" ]", file);
   IL_UNUSED(error5);
+  if (std::ferror(file) != 0) {
+    status.SetError(il::Error::FilesystemCanNotWriteToFile);
+    return;
+  }
   status.SetOk();
 }
 
@@ -151,9 +155,15 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
     if (type != il::Type::MapArrayStringToDynamic &&
         type != il::Type::MapStringToDynamic) {
       error = std::fputs(toml.key(i).asCString(), file);
-      if (error == EOF) return;
+      if (error < 0) {
+        status.SetError(il::Error::FilesystemCanNotWriteToFile);
+        return;
+      }
       error = std::fputs(" = ", file);
-      if (error == EOF) return;
+      if (error < 0) {
+        status.SetError(il::Error::FilesystemCanNotWriteToFile);
+        return;
+      }
       switch (type) {
         case il::Type::Bool:
           if (value.to<bool>()) {
@@ -161,84 +171,158 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
           } else {
             error = std::fputs("false", file);
           }
-          if (error == EOF) return;
+          if (error < 0) {
+            status.SetError(il::Error::FilesystemCanNotWriteToFile);
+            return;
+          }
           break;
         case il::Type::Integer:
           error = std::fprintf(file, "%td", value.to<il::int_t>());
-          if (error == EOF) return;
+          if (error < 0) {
+            status.SetError(il::Error::FilesystemCanNotWriteToFile);
+            return;
+          }
           break;
         case il::Type::Double:
           error = std::fprintf(file, "%e", value.to<double>());
-          if (error == EOF) return;
+          if (error < 0) {
+            status.SetError(il::Error::FilesystemCanNotWriteToFile);
+            return;
+          }
           break;
         case il::Type::UnicodeString:
           error = std::fputs("\"", file);
-          if (error == EOF) return;
+          if (error < 0) {
+            status.SetError(il::Error::FilesystemCanNotWriteToFile);
+            return;
+          }
           error = std::fputs(value.as<il::String>().asCString(), file);
-          if (error == EOF) return;
+          if (error < 0) {
+            status.SetError(il::Error::FilesystemCanNotWriteToFile);
+            return;
+          }
           error = std::fputs("\"", file);
-          if (error == EOF) return;
+          if (error < 0) {
+            status.SetError(il::Error::FilesystemCanNotWriteToFile);
+            return;
+          }
           break;
         case il::Type::ArrayOfDouble: {
           const il::Array<double> &v = value.as<il::Array<double>>();
           error = std::fputs("[ ", file);
-          if (error == EOF) return;
+          if (error < 0) {
+            status.SetError(il::Error::FilesystemCanNotWriteToFile);
+            return;
+          }
           for (il::int_t i = 0; i < v.size(); ++i) {
-            std::fprintf(file, "%e", v[i]);
+            error = std::fprintf(file, "%e", v[i]);
+            if (error < 0) {
+              status.SetError(il::Error::FilesystemCanNotWriteToFile);
+              return;
+            }
             if (i + 1 < v.size()) {
               error = std::fputs(", ", file);
-              if (error == EOF) return;
+              if (error < 0) {
+                status.SetError(il::Error::FilesystemCanNotWriteToFile);
+                return;
+              }
             }
           }
           error = std::fputs(" ]", file);
-          if (error == EOF) return;
+          if (error < 0) {
+            status.SetError(il::Error::FilesystemCanNotWriteToFile);
+            return;
+          }
         } break;
         case il::Type::Array2DOfDouble: {
           const il::Array2D<double> &v = value.as<il::Array2D<double>>();
           error = std::fputs("[ ", file);
-          if (error == EOF) return;
+          if (error < 0) {
+            status.SetError(il::Error::FilesystemCanNotWriteToFile);
+            return;
+          }
           for (il::int_t i = 0; i < v.size(0); ++i) {
             error = std::fputs("[ ", file);
-            if (error == EOF) return;
+            if (error < 0) {
+              status.SetError(il::Error::FilesystemCanNotWriteToFile);
+              return;
+            }
             for (il::int_t j = 0; j < v.size(1); ++j) {
-              std::fprintf(file, "%e", v(i, j));
+              error = std::fprintf(file, "%e", v(i, j));
+              if (error < 0) {
+                status.SetError(il::Error::FilesystemCanNotWriteToFile);
+                return;
+              }
               if (j + 1 < v.size(1)) {
                 error = std::fputs(", ", file);
-                if (error == EOF) return;
+                if (error < 0) {
+                  status.SetError(il::Error::FilesystemCanNotWriteToFile);
+                  return;
+                }
               }
             }
             error = std::fputs(" ]", file);
-            if (error == EOF) return;
+            if (error < 0) {
+              status.SetError(il::Error::FilesystemCanNotWriteToFile);
+              return;
+            }
             if (i + 1 < v.size(0)) {
               error = std::fputs(", ", file);
-              if (error == EOF) return;
+              if (error < 0) {
+                status.SetError(il::Error::FilesystemCanNotWriteToFile);
+                return;
+              }
             }
           }
           error = std::fputs(" ]", file);
-          if (error == EOF) return;
+          if (error < 0) {
+            status.SetError(il::Error::FilesystemCanNotWriteToFile);
+            return;
+          }
         } break;
         case il::Type::ArrayOfDynamic: {
           save_array(value.as<il::Array<il::Dynamic>>(), il::io, file, status);
-          status.AbortOnError();
+          if (!status.Ok()) {
+            status.Rearm();
+            return;
+          }
         } break;
         default:
           IL_UNREACHABLE;
       }
       error = std::fputs("\n", file);
-      if (error == EOF) return;
+      if (error < 0) {
+        status.SetError(il::Error::FilesystemCanNotWriteToFile);
+        return;
+      }
     } else if (type == il::Type::MapArrayStringToDynamic) {
       error = std::fputs("\n[", file);
-      if (error == EOF) return;
+      if (error < 0) {
+        status.SetError(il::Error::FilesystemCanNotWriteToFile);
+        return;
+      }
       if (name.size() != 0) {
         error = std::fputs(name.asCString(), file);
-        if (error == EOF) return;
+        if (error < 0) {
+          status.SetError(il::Error::FilesystemCanNotWriteToFile);
+          return;
+        }
         error = std::fputs(".", file);
-        if (error == EOF) return;
+        if (error < 0) {
+          status.SetError(il::Error::FilesystemCanNotWriteToFile);
+          return;
+        }
       }
       error = std::fputs(toml.key(i).asCString(), file);
-      if (error == EOF) return;
+      if (error < 0) {
+        status.SetError(il::Error::FilesystemCanNotWriteToFile);
+        return;
+      }
       error = std::fputs("]\n", file);
-      if (error == EOF) return;
+      if (error < 0) {
+        status.SetError(il::Error::FilesystemCanNotWriteToFile);
+        return;
+      }
       save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), toml.key(i),
                il::io, file, status);
       if (!status.Ok()) {
@@ -247,17 +331,32 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
       }
     } else if (type == il::Type::MapStringToDynamic) {
       error = std::fputs("\n[", file);
-      if (error == EOF) return;
+      if (error < 0) {
+        status.SetError(il::Error::FilesystemCanNotWriteToFile);
+        return;
+      }
       if (name.size() != 0) {
         error = std::fputs(name.asCString(), file);
-        if (error == EOF) return;
+        if (error < 0) {
+          status.SetError(il::Error::FilesystemCanNotWriteToFile);
+          return;
+        }
         error = std::fputs(".", file);
-        if (error == EOF) return;
+        if (error < 0) {
+          status.SetError(il::Error::FilesystemCanNotWriteToFile);
+          return;
+        }
       }
       error = std::fputs(toml.key(i).asCString(), file);
-      if (error == EOF) return;
+      if (error < 0) {
+        status.SetError(il::Error::FilesystemCanNotWriteToFile);
+        return;
+      }
       error = std::fputs("]\n", file);
-      if (error == EOF) return;
+      if (error < 0) {
+        status.SetError(il::Error::FilesystemCanNotWriteToFile);
+        return;
+      }
       save_aux(value.as<il::Map<il::String, il::Dynamic>>(), toml.key(i),
                il::io, file, status);
       if (!status.Ok()) {
-- 
2.43.0


From ee5ee2b0e6cac3db4b08afd6858b5ec5ffa94d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 082/134] fix: toml writer closes the file after a failure

---
 il/io/toml/toml.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 81ea3b4..2b97fcf 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -394,6 +394,7 @@ class SaveHelper<il::Map<il::String, il::Dynamic>> {
     il::String root_name{};
     save_aux(toml, root_name, il::io, file, status);
     if (!status.Ok()) {
+      std::fclose(file);
       status.Rearm();
       return;
     }
@@ -433,6 +434,7 @@ class SaveHelperToml<il::MapArray<il::String, il::Dynamic>> {
     il::String root_name{};
     save_aux(toml, root_name, il::io, file, status);
     if (!status.Ok()) {
+      std::fclose(file);
       status.Rearm();
       return;
     }
-- 
2.43.0


From 1030dee6ef73698231ecae2b4edd168ff7019747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 083/134] fix: loading and saving of numpy files close the file
 after a failure

---
 il/io/numpy/numpy.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index ca34390..a895daf 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -99,6 +99,7 @@ class SaveHelper<il::Array<T>> {
     if (static_cast<il::int_t>(written) != v.size()) {
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
       IL_SET_SOURCE(status);
+      std::fclose(file);
       return;
     }
 
@@ -154,6 +155,7 @@ class SaveHelper<il::Array2D<T>> {
     if (static_cast<il::int_t>(written) != A.size(0) * A.size(1)) {
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
       IL_SET_SOURCE(status);
+      std::fclose(file);
       return;
     }
 
@@ -192,16 +194,19 @@ class LoadHelper<il::Array<T>> {
     il::NumpyInfo numpy_info = il::getNumpyInfo(il::io, file, info_status);
     if (!info_status.Ok()) {
       status = std::move(info_status);
+      std::fclose(file);
       return v;
     }
 
     if (!(numpy_info.type.isEqual(il::numpyType<T>::value))) {
       status.SetError(il::Error::BinaryFileWrongType);
       IL_SET_SOURCE(status);
+      std::fclose(file);
       return v;
     } else if (numpy_info.shape.size() != 1) {
       status.SetError(il::Error::BinaryFileWrongRank);
       IL_SET_SOURCE(status);
+      std::fclose(file);
       return v;
     }
 
@@ -210,6 +215,7 @@ class LoadHelper<il::Array<T>> {
     if (static_cast<il::int_t>(read) != v.size()) {
       status.SetError(il::Error::BinaryFileWrongFormat);
       IL_SET_SOURCE(status);
+      std::fclose(file);
       return v;
     }
 
@@ -248,20 +254,24 @@ class LoadHelper<il::Array2D<T>> {
     il::NumpyInfo numpy_info = il::getNumpyInfo(il::io, file, info_status);
     if (!info_status.Ok()) {
       status = std::move(info_status);
+      std::fclose(file);
       return v;
     }
 
     if (!(numpy_info.type.isEqual(il::numpyType<T>::value))) {
       status.SetError(il::Error::BinaryFileWrongType);
       IL_SET_SOURCE(status);
+      std::fclose(file);
       return v;
     } else if (numpy_info.shape.size() != 2) {
       status.SetError(il::Error::BinaryFileWrongRank);
       IL_SET_SOURCE(status);
+      std::fclose(file);
       return v;
     } else if (!numpy_info.fortran_order) {
       status.SetError(il::Error::BinaryFileWrongEndianness);
       IL_SET_SOURCE(status);
+      std::fclose(file);
       return v;
     }
 
@@ -271,6 +281,7 @@ class LoadHelper<il::Array2D<T>> {
     if (static_cast<il::int_t>(read) != n) {
       status.SetError(il::Error::BinaryFileWrongFormat);
       IL_SET_SOURCE(status);
+      std::fclose(file);
       return v;
     }
 
-- 
2.43.0


From 46103e2f8bab91a07419bbd262e1036970a7c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 084/134] fix: filepack reports the failure of a read or a
 write

---
 il/io/filepack/filepack.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index e5ea722..8a689d9 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -43,7 +43,9 @@ inline il::int_t readVarint(il::io_t, il::int_t& k, std::FILE* file) {
   const unsigned char continuation_byte = 0x80;
   unsigned char byte;
   do {
-    std::fread(&byte, sizeof(unsigned char), 1, file);
+    if (std::fread(&byte, sizeof(unsigned char), 1, file) != 1) {
+      return 0;
+    }
     k += 1;
     ans += multiplier * (byte & continuation_mask);
     multiplier *= max_byte;
@@ -449,6 +451,11 @@ class LoadHelperData<il::MapArray<il::String, il::Dynamic>> {
 #endif
 
     auxLoad(-1, il::io, ans, file);
+    if (std::feof(file) != 0 || std::ferror(file) != 0) {
+      std::fclose(file);
+      status.SetError(il::Error::FilesystemFileNotLongEnough);
+      return ans;
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
@@ -485,6 +492,11 @@ class LoadHelperData<il::Map<il::String, il::Dynamic>> {
 #endif
 
     auxLoad(-1, il::io, ans, file);
+    if (std::feof(file) != 0 || std::ferror(file) != 0) {
+      std::fclose(file);
+      status.SetError(il::Error::FilesystemFileNotLongEnough);
+      return ans;
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
@@ -689,6 +701,11 @@ class SaveHelperData<il::MapArray<il::String, il::Dynamic>> {
     il::Array<il::String> option{};
     il::int_t n = 0;
     auxSave(data, option.view(), il::io, n, file);
+    if (std::ferror(file) != 0) {
+      std::fclose(file);
+      status.SetError(il::Error::FilesystemCanNotWriteToFile);
+      return;
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
@@ -726,6 +743,11 @@ class SaveHelperDataWithOptions<il::MapArray<il::String, il::Dynamic>,
 
     il::int_t n = 0;
     auxSave(data, option.view(), il::io, n, file);
+    if (std::ferror(file) != 0) {
+      std::fclose(file);
+      status.SetError(il::Error::FilesystemCanNotWriteToFile);
+      return;
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
-- 
2.43.0


From 75072207efbb62707720ad66c4913df3829dc445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 085/134] fix: readPpm closes the file after a failure

---
 il/io/ppm/ppm.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 1903491..b39950b 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -55,10 +55,12 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
 
   char buffer[16];
   if (!std::fgets(buffer, sizeof(buffer), fp)) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
   if (buffer[0] != 'P' || buffer[1] != '6') {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -77,12 +79,14 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   int height;
 #ifdef IL_UNIX
   if (std::fscanf(fp, "%d %d", &width, &height) != 2) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
 #else
   const int error_no = fscanf_s(fp, "%d %d", &width, &height);
   if (error_no != 2) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -91,6 +95,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   int rgb_comp_color;
 #ifdef IL_UNIX
   if (std::fscanf(fp, "%d", &rgb_comp_color) != 1) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -98,6 +103,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   {
     const int error_no = fscanf_s(fp, "%d", &rgb_comp_color);
     if (error_no != 1) {
+      std::fclose(fp);
       status.SetError(il::Error::BinaryFileWrongFormat);
       return image;
     }
@@ -105,6 +111,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
 #endif
   // check rgb component depth
   if (rgb_comp_color != 255) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -114,6 +121,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   // read pixel data from file
   image.Resize(width, height);
   if (std::fread(image.Data(), 3 * width, height, fp) != height) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     image.Resize(0, 0);
     return image;
-- 
2.43.0


From c460425fea2443220091940a91d733f4d90ee7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 086/134] fix: readPpm examines the result of fclose

---
 il/io/ppm/ppm.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index b39950b..035fe4d 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -127,7 +127,10 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
     return image;
   }
 
-  std::fclose(fp);
+  if (std::fclose(fp) != 0) {
+    status.SetError(il::Error::FilesystemCanNotCloseFile);
+    return image;
+  }
   status.SetOk();
 
   return image;
-- 
2.43.0


From a2feb2274b7ea29582a6cc5cdb61cd79233db49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 087/134] fix: a file which could not be opened is not marked
 as opened

---
 il/io/File.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/File.h b/il/io/File.h
index de58d49..6226f4e 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -61,7 +61,7 @@ class File {
 
 inline File::File(const il::String& filename, il::FileMode mode,
                   il::int_t buffer_size, il::io_t, il::Status& status)
-    : buffer_{buffer_size} {
+    : buffer_{buffer_size}, opened_{false} {
 #ifdef IL_UNIX
   il::String s_mode{};
   switch (mode) {
-- 
2.43.0


From 19f4a77fdbf79536bf991f7d5de0a6e271723431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 088/134] fix: il::File::Read counts the bytes it reads and
 appends them to the buffered ones

---
 il/io/File.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/il/io/File.h b/il/io/File.h
index 6226f4e..8c59455 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -157,7 +157,8 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
       // consequence, I we try to do that first and if we fail because we are at
       // the end of the file, we try to read n elements of 1 byte.
       const std::size_t nb_bytes_read =
-          std::fread(p, nb_bytes_to_read, 1, file_);
+          std::fread(static_cast<unsigned char*>(p) + nb_bytes_from_buffer, 1,
+                     nb_bytes_to_read, file_);
       nb_bytes_read_ += nb_bytes_read;
       if (nb_bytes_read != nb_bytes_to_read) {
         status.SetError(il::Error::FilesystemFileNotLongEnough);
-- 
2.43.0


From 5df29a6c88076380c76b61cc5c4b8211ec92cd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 089/134] fix: a file is closed even when fclose reports an
 error

---
 il/io/File.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/File.h b/il/io/File.h
index 8c59455..832f552 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -241,12 +241,12 @@ inline void File::Close(il::io_t, il::Status& status) {
   IL_EXPECT_MEDIUM(opened_);
 
   const int error = std::fclose(file_);
+  opened_ = false;
   if (error != 0) {
     status.SetError(il::Error::FilesystemCanNotCloseFile);
     return;
   }
 
-  opened_ = false;
   status.SetOk();
 }
 
-- 
2.43.0


From 65cef8f74452676f185836e84dc30a11a8da8f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 090/134] fix: il::Info releases its memory

---
 il/container/info/Info.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 37ff6ab..1523517 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -47,6 +47,7 @@ class Info {
   Info(Info&& other);
   Info& operator=(const Info& other);
   Info& operator=(Info&& other);
+  ~Info();
 
   bool isEmpty() const;
   void clear();
@@ -160,6 +161,9 @@ inline Info& Info::operator=(Info&& other) {
       std::memcpy(small_, other.data(), size);
       SetSmallSize(size);
     } else {
+      if (!isSmall()) {
+        delete[] large_.data;
+      }
       large_ = other.large_;
       other.SetSmallSize(0);
     }
@@ -167,6 +171,12 @@ inline Info& Info::operator=(Info&& other) {
   return *this;
 }
 
+inline Info::~Info() {
+  if (!isSmall()) {
+    delete[] large_.data;
+  }
+}
+
 inline void Info::Set(const char* key, int value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
-- 
2.43.0


From 001df1030db6371839d6b0e7760fd8572710cea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 091/134] fix: il::Info::search does not return a key which is
 only a prefix

---
 il/container/info/Info.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 1523517..f4e8bf8 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -283,7 +283,7 @@ inline il::int_t Info::search(const char* key) const {
     while (key[j] != '\0' && p[i + sizeof(int) + j] == key[j]) {
       ++j;
     }
-    if (p[i + sizeof(int) + j] == '\0') {
+    if (key[j] == '\0' && p[i + sizeof(int) + j] == '\0') {
       found = true;
     } else {
       i += step;
-- 
2.43.0


From 5c2948bd71e037da128b16d4b55ee4348d7017a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 092/134] fix: an int given to il::Info is found by toInteger

---
 il/container/info/Info.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index f4e8bf8..acc2ceb 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -179,7 +179,8 @@ inline Info::~Info() {
 
 inline void Info::Set(const char* key, int value) {
   const int key_length = static_cast<int>(strlen(key));
-  const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
+  const int n =
+      key_length + 2 + static_cast<int>(sizeof(int) + sizeof(il::int_t));
   il::int_t i = size();
   Resize(i + n);
 
@@ -193,10 +194,10 @@ inline void Info::Set(const char* key, int value) {
   }
   i += key_length + 1;
 
-  p[i] = 3;
+  p[i] = 0;
   ++i;
 
-  Set(value, p + i);
+  Set(static_cast<il::int_t>(value), p + i);
 }
 
 #ifdef IL_64_BIT
-- 
2.43.0


From 19dd74a81bdc58915d9b9cc5dc7cc0d36c3903a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 093/134] fix: assignment of a triangular matrix copies all its
 elements and tracks the ones it had

---
 il/container/2d/LowerArray2D.h | 13 +++++++++----
 il/container/2d/UpperArray2D.h | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/il/container/2d/LowerArray2D.h b/il/container/2d/LowerArray2D.h
index 1f5a114..6b0e3ae 100644
--- a/il/container/2d/LowerArray2D.h
+++ b/il/container/2d/LowerArray2D.h
@@ -158,7 +158,8 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         if (data_) {
-          for (il::int_t k{nb_elements - 1}; k >= 0; --k) {
+          const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+          for (il::int_t k{nb_elements_old - 1}; k >= 0; --k) {
             (data_ + k)->~T();
           }
           ::operator delete(data_);
@@ -176,12 +177,16 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
       capacity_ = data_ + n;
     } else {
       if (il::isTrivial<T>::value) {
-        memcpy(data_, A.data_, n * sizeof(T));
+        memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
+        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k = 0; k < nb_elements; ++k) {
-          data_[k] = A.data_[k];
+          if (k < nb_elements_old) {
+            data_[k] = A.data_[k];
+          } else {
+            new (data_ + k) T{A.data_[k]};
+          }
         }
-        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k{nb_elements_old - 1}; k >= nb_elements; --k) {
           (data_ + k)->~T();
         }
diff --git a/il/container/2d/UpperArray2D.h b/il/container/2d/UpperArray2D.h
index 912d669..d84b89c 100644
--- a/il/container/2d/UpperArray2D.h
+++ b/il/container/2d/UpperArray2D.h
@@ -158,7 +158,8 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         if (data_) {
-          for (il::int_t k{nb_elements - 1}; k >= 0; --k) {
+          const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+          for (il::int_t k{nb_elements_old - 1}; k >= 0; --k) {
             (data_ + k)->~T();
           }
           ::operator delete(data_);
@@ -176,12 +177,16 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
       capacity_ = data_ + n;
     } else {
       if (il::isTrivial<T>::value) {
-        memcpy(data_, A.data_, n * sizeof(T));
+        memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
+        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k = 0; k < nb_elements; ++k) {
-          data_[k] = A.data_[k];
+          if (k < nb_elements_old) {
+            data_[k] = A.data_[k];
+          } else {
+            new (data_ + k) T{A.data_[k]};
+          }
         }
-        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k{nb_elements_old - 1}; k >= nb_elements; --k) {
           (data_ + k)->~T();
         }
-- 
2.43.0


From 87a7917e57a22478e2e4361e9df2e63826dfe4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 094/134] fix: norm of a sparse matrix checks each scaling
 vector against the extent it is used for

---
 il/container/2d/SparseMatrixCSR.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 62243ac..9951b3a 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -325,8 +325,8 @@ template <typename Index>
 inline double norm(const il::SparseMatrixCSR<Index, double> &A, Norm norm_type,
                    const il::Array<double> &beta,
                    const il::Array<double> &alpha) {
-  IL_EXPECT_FAST(alpha.size() == A.size(0));
-  IL_EXPECT_FAST(beta.size() == A.size(1));
+  IL_EXPECT_FAST(alpha.size() == A.size(1));
+  IL_EXPECT_FAST(beta.size() == A.size(0));
 
   double norm = 0.0;
   switch (norm_type) {
-- 
2.43.0


From f716bf18e671287482852bb8ad94677d61c2621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 095/134] fix: sparse matrix of order 0 built from positions

---
 il/container/2d/SparseMatrixCSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 9951b3a..61f9ea8 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -144,7 +144,7 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(
   for (Index l = 0; l < nb_entries; ++l) {
     ++nb_entries_per_row[position[l][0]];
   }
-  const Index max_entries_per_row = il::max(nb_entries_per_row);
+  const Index max_entries_per_row = n > 0 ? il::max(nb_entries_per_row) : 0;
 
   // Suppose that we have the matrix entered with the following entries:
   // (0, 0) - (2, 2) - (1, 2) - (1, 1) - (2, 2)
-- 
2.43.0


From 7d4a296497e7d035b85b49a8ed913eeb4169ce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 096/134] fix: depth of a tree whose last level is full

---
 il/container/tree/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index e59544c..3d91221 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -88,7 +88,7 @@ il::int_t Tree<T, n>::depth() const {
   il::int_t m = tree_.size();
   il::int_t fac = 1;
   il::int_t depth = -1;
-  while (m >= 0) {
+  while (m > 0) {
     m -= fac;
     fac *= n;
     ++depth;
-- 
2.43.0


From 37ba535f8f10ca32b189f4c78b05c8f0401435ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 097/134] fix: a node of a tree that was given a value is not
 empty

---
 il/container/tree/Tree.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index 3d91221..6b722ef 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -118,9 +118,7 @@ il::spot_t Tree<T, n>::child(il::spot_t s, il::int_t i) const {
 template <typename T, il::int_t n>
 void Tree<T, n>::Set(il::spot_t s, T x) {
   tree_[s.index].value = x;
-  if (tree_[s.index].flag % 2 == 0) {
-    tree_[s.index].flag += 1;
-  }
+  tree_[s.index].flag = tree_[s.index].flag | 3;
 }
 
 template <typename T, il::int_t n>
-- 
2.43.0


From 618b0ee23356bd4167725d633e65ac3ebc42dd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 098/134] fix: a Dynamic made from an Array<unsigned int> has
 the type ArrayOfUInt32

---
 il/container/dynamic/Dynamic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 00db025..0c45e83 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -268,13 +268,13 @@ inline Dynamic::Dynamic(const il::Array<short> &value) {
 }
 
 inline Dynamic::Dynamic(const il::Array<unsigned int> &value) {
-  type_ = il::Type::ArrayOfInt32;
+  type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
       new il::Array<unsigned int>{value};
 }
 
 inline Dynamic::Dynamic(il::Array<unsigned int> &&value) {
-  type_ = il::Type::ArrayOfInt32;
+  type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
       new il::Array<unsigned int>{value};
 }
-- 
2.43.0


From 2da7a8710362437cb23647f41f98d601a2c2e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 099/134] fix: a Dynamic that holds an Array2D can be copied
 and released

---
 il/container/dynamic/Dynamic.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 0c45e83..7e02d18 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -632,6 +632,15 @@ inline void Dynamic::CopyData(il::Type type, void *p) {
           new il::Array<il::String>{
               *reinterpret_cast<il::Array<il::String> *>(p)};
       break;
+    case il::Type::Array2DOfDouble:
+      *reinterpret_cast<il::Array2D<double> **>(&data_) =
+          new il::Array2D<double>{*reinterpret_cast<il::Array2D<double> *>(p)};
+      break;
+    case il::Type::Array2DOfUInt8:
+      *reinterpret_cast<il::Array2D<unsigned char> **>(&data_) =
+          new il::Array2D<unsigned char>{
+              *reinterpret_cast<il::Array2D<unsigned char> *>(p)};
+      break;
     default:
       IL_UNREACHABLE;
   }
@@ -692,6 +701,9 @@ inline void Dynamic::ReleaseMemory() {
     case il::Type::Array2DOfDouble:
       delete reinterpret_cast<il::Array2D<double> *>(data_);
       break;
+    case il::Type::Array2DOfUInt8:
+      delete reinterpret_cast<il::Array2D<unsigned char> *>(data_);
+      break;
     default:
       IL_UNREACHABLE;
   }
-- 
2.43.0


From a289f6bd0baba694c66083061d7cd46cba778c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 100/134] fix: assignment of a Dynamic to itself or to one that
 contains it

---
 il/container/dynamic/Dynamic.h | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 7e02d18..44826da 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -457,20 +457,23 @@ inline il::Dynamic &Dynamic::operator=(double value) {
 }
 
 inline il::Dynamic &Dynamic::operator=(const il::String &value) {
+  // value might be (in) the content that is replaced
+  il::String *p = new il::String{value};
   if (!isStackAllocated()) {
     ReleaseMemory();
   }
   type_ = il::Type::UnicodeString;
-  *reinterpret_cast<il::String **>(&data_) = new il::String{value};
+  *reinterpret_cast<il::String **>(&data_) = p;
   return *this;
 }
 
 inline il::Dynamic &Dynamic::operator=(il::String &&value) {
+  il::String *p = new il::String{std::move(value)};
   if (!isStackAllocated()) {
     ReleaseMemory();
   }
   type_ = il::Type::UnicodeString;
-  *reinterpret_cast<il::String **>(&data_) = new il::String{std::move(value)};
+  *reinterpret_cast<il::String **>(&data_) = p;
   return *this;
 }
 
@@ -490,25 +493,21 @@ inline Dynamic::Dynamic(il::Dynamic &&other) {
 }
 
 inline il::Dynamic &Dynamic::operator=(const il::Dynamic &other) {
-  if (!isStackAllocated()) {
-    ReleaseMemory();
-  }
-  type_ = other.type_;
-  if (isStackAllocated()) {
-    data_ = other.data_;
-  } else {
-    CopyData(type_, reinterpret_cast<void *>(other.data_));
-  }
-  return *this;
+  // other might be *this or (in) the content that is replaced
+  il::Dynamic copy{other};
+  return *this = std::move(copy);
 }
 
 inline il::Dynamic &Dynamic::operator=(il::Dynamic &&other) {
-  if (!isStackAllocated()) {
-    ReleaseMemory();
+  if (this != &other) {
+    // other might be in the content that is replaced
+    il::Dynamic old{};
+    old.type_ = type_;
+    old.data_ = data_;
+    type_ = other.type_;
+    data_ = other.data_;
+    other.type_ = il::Type::Void;
   }
-  type_ = other.type_;
-  data_ = other.data_;
-  other.type_ = il::Type::Void;
   return *this;
 }
 
-- 
2.43.0


From 43fca8f86d3c9bb0aeb058407fa6afbb3be37328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 101/134] fix: filepack reads and writes an Array2D<unsigned
 char> by its own element size

---
 il/io/filepack/filepack.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index 8a689d9..cec0660 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -143,7 +143,7 @@ inline void auxLoad(il::int_t n, il::io_t,
         std::fread(&size1, sizeof(il::int_t), 1, file);
         k += 2 * sizeof(il::int_t);
         il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(double), size0 * size1, file);
+        std::fread(A.Data(), sizeof(unsigned char), size0 * size1, file);
         k += sizeof(unsigned char) * size0 * size1;
         config.Set(std::move(string), il::Dynamic{std::move(A)});
       } break;
@@ -308,7 +308,7 @@ inline void auxLoad(il::int_t n, il::io_t,
         std::fread(&size1, sizeof(il::int_t), 1, file);
         k += 2 * sizeof(il::int_t);
         il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(double), size0 * size1, file);
+        std::fread(A.Data(), sizeof(unsigned char), size0 * size1, file);
         k += sizeof(unsigned char) * size0 * size1;
         config.Set(std::move(string), il::Dynamic{std::move(A)});
       } break;
@@ -569,7 +569,7 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
         std::fwrite(&size0, sizeof(il::int_t), 1, file);
         std::fwrite(&size1, sizeof(il::int_t), 1, file);
         for (int j = 0; j < size1; ++j) {
-          std::fwrite(A.data() + j * A.capacity(0), sizeof(double), size0,
+          std::fwrite(A.data() + j * A.capacity(0), sizeof(unsigned char), size0,
                       file);
         }
         n += 2 * sizeof(il::int_t) + sizeof(unsigned char) * size0 * size1;
-- 
2.43.0


From 98d50cb6fd09257140dd466fe3fce39170d6087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 102/134] fix: filepack reads the terminator of a string, so
 that the entries after it are not lost

---
 il/io/filepack/filepack.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index cec0660..d1f2ad5 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -286,9 +286,9 @@ inline void auxLoad(il::int_t n, il::io_t,
         il::int_t size = 0;
         std::fread(&size, sizeof(il::int_t), 1, file);
         k += sizeof(il::int_t);
-        il::Array<char> raw_value{size};
-        std::fread(raw_value.Data(), sizeof(char), size, file);
-        k += size;
+        il::Array<char> raw_value{size + 1};
+        std::fread(raw_value.Data(), sizeof(char), size + 1, file);
+        k += size + 1;
         il::String value{il::StringType::Byte, raw_value.data(), size};
         config.Set(std::move(string), il::Dynamic{std::move(value)});
       } break;
-- 
2.43.0


From 97675a45d16fa465101f5165df8bd7d8cd39b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 103/134] fix: filepack loads a Map with the keys and strings
 as they were saved

---
 il/io/filepack/filepack.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index d1f2ad5..c684475 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -84,10 +84,10 @@ inline void auxLoad(il::int_t n, il::io_t,
     if (size_string == 0) {
       break;
     }
-    il::Array<char> raw_string{size_string - 1};
-    std::fread(raw_string.Data(), sizeof(char), size_string - 1, file);
-    il::String string{il::StringType::Byte, raw_string.data(), size_string - 1};
-    k += string.size() + 1;
+    il::Array<char> raw_string{size_string};
+    std::fread(raw_string.Data(), sizeof(char), size_string, file);
+    il::String string{il::StringType::Byte, raw_string.data(), size_string};
+    k += string.size();
 
     il::Type type;
     fread(&type, sizeof(il::Type), 1, file);
@@ -123,8 +123,7 @@ inline void auxLoad(il::int_t n, il::io_t,
         il::Array<char> raw_value{size + 1};
         std::fread(raw_value.Data(), sizeof(char), size + 1, file);
         k += size + 1;
-        il::String value{il::StringType::Byte, raw_value.data(),
-                         raw_value.size()};
+        il::String value{il::StringType::Byte, raw_value.data(), size};
         config.Set(std::move(string), il::Dynamic{std::move(value)});
       } break;
       case il::Type::ArrayOfDouble: {
-- 
2.43.0


From af1353d934af96cfefb017b116fa629cd90ddeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 104/134] fix: filepack loads nested MapArrays and arrays of
 structures as they were saved

---
 il/io/filepack/filepack.h | 226 +++++++++++++++-----------------------
 1 file changed, 86 insertions(+), 140 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index c684475..edd3126 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -74,6 +74,65 @@ inline void writeVarint(il::int_t n, il::io_t, il::int_t& k, std::FILE* file) {
   }
 }
 
+// The columns of an array of structures, which are stored row by row
+template <typename M>
+void auxLoadArrayOfStruct(il::io_t, M& columns, std::FILE* file) {
+  il::int_t k = 0;
+  const il::int_t nb_types = il::readVarint(il::io, k, file);
+
+  il::Array<il::String> key{nb_types};
+  il::Array<il::Type> type{nb_types};
+  for (il::int_t i = 0; i < nb_types; ++i) {
+    const il::int_t key_size = il::readVarint(il::io, k, file);
+
+    il::Array<char> raw_string{key_size};
+    std::fread(raw_string.Data(), sizeof(char), key_size, file);
+    key[i] = il::String{il::StringType::Byte, raw_string.data(), key_size};
+
+    std::fread(&(type[i]), sizeof(il::Type), 1, file);
+  }
+  const il::int_t n = il::readVarint(il::io, k, file);
+
+  il::Array<il::Dynamic> array{nb_types};
+  for (il::int_t i = 0; i < nb_types; ++i) {
+    switch (type[i]) {
+      case il::Type::Double: {
+        array[i] = il::Dynamic{il::Array<double>{n}};
+      } break;
+      case il::Type::Integer: {
+        array[i] = il::Dynamic{il::Array<int>{n}};
+      } break;
+      default:
+        IL_UNREACHABLE;
+    }
+  }
+
+  for (il::int_t j = 0; j < n; ++j) {
+    for (il::int_t i = 0; i < nb_types; ++i) {
+      switch (type[i]) {
+        case il::Type::Double: {
+          il::Array<double>& ref = array[i].As<il::Array<double>>();
+          double value = 0.0;
+          std::fread(&value, sizeof(double), 1, file);
+          ref[j] = value;
+        } break;
+        case il::Type::Integer: {
+          il::Array<int>& ref = array[i].As<il::Array<int>>();
+          int value = 0;
+          std::fread(&value, sizeof(int), 1, file);
+          ref[j] = value;
+        } break;
+        default:
+          IL_UNREACHABLE;
+      }
+    }
+  }
+
+  for (il::int_t i = 0; i < nb_types; ++i) {
+    columns.Set(std::move(key[i]), std::move(array[i]));
+  }
+}
+
 inline void auxLoad(il::int_t n, il::io_t,
                     il::Map<il::String, il::Dynamic>& config, std::FILE* file) {
   IL_UNUSED(n);
@@ -158,64 +217,10 @@ inline void auxLoad(il::int_t n, il::io_t,
         config.Set(std::move(string), il::Dynamic{std::move(v)});
       } break;
       case il::Type::ArrayOfStruct: {
-        il::int_t nb_types;
-        il::readVarint(il::io, nb_types, file);
-
-        il::Array<il::String> key{nb_types};
-        il::Array<il::Type> type{nb_types};
-        for (il::int_t i = 0; i < nb_types; ++i) {
-          il::int_t key_size;
-          il::readVarint(il::io, key_size, file);
-
-          il::Array<char> raw_string{key_size};
-          std::fread(raw_string.Data(), sizeof(char), key_size, file);
-          key[i] =
-              il::String{il::StringType::Byte, raw_string.data(), key_size};
-
-          fread(&(type[i]), sizeof(il::Type), 1, file);
-        }
-        il::int_t n;
-        std::fread(&n, sizeof(il::int_t), 1, file);
-
-        il::Array<il::Dynamic> array{nb_types};
-        for (il::int_t i = 0; i < nb_types; ++i) {
-          switch (type[i]) {
-            case il::Type::Double: {
-              array[i] = il::Dynamic{il::Type::ArrayOfDouble};
-              il::Array<double>& ref = array[i].As<il::Array<double>>();
-              ref.Resize(n);
-            } break;
-            case il::Type::Integer: {
-              array[i] = il::Dynamic{il::Type::ArrayOfInt32};
-              il::Array<int>& ref = array[i].As<il::Array<int>>();
-              ref.Resize(n);
-            } break;
-            default:
-              IL_UNREACHABLE;
-          }
-        }
-
-        for (il::int_t j = 0; j < n; ++j) {
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            switch (type[i]) {
-              case il::Type::Double: {
-                il::Array<double>& ref = array[i].As<il::Array<double>>();
-                double value = 0.0;
-                std::fread(&value, sizeof(double), 1, file);
-                ref[j] = value;
-              } break;
-              case il::Type::Integer: {
-                il::Array<int>& ref = array[i].As<il::Array<int>>();
-                int value = 0;
-                std::fread(&value, sizeof(int), 1, file);
-                ref[j] = value;
-              } break;
-              default:
-                IL_UNREACHABLE;
-            }
-          }
-        }
-      }
+        il::Map<il::String, il::Dynamic> columns{};
+        auxLoadArrayOfStruct(il::io, columns, file);
+        config.Set(std::move(string), il::Dynamic{std::move(columns)});
+      } break;
       case il::Type::MapArrayStringToDynamic:
       case il::Type::MapStringToDynamic: {
         il::int_t n_map = 0;
@@ -322,85 +327,25 @@ inline void auxLoad(il::int_t n, il::io_t,
         k += sizeof(double) * size0 * size1;
         config.Set(std::move(string), il::Dynamic{std::move(v)});
       } break;
+      case il::Type::ArrayOfStruct: {
+        il::MapArray<il::String, il::Dynamic> columns{};
+        auxLoadArrayOfStruct(il::io, columns, file);
+        config.Set(std::move(string), il::Dynamic{std::move(columns)});
+      } break;
       case il::Type::MapArrayStringToDynamic: {
-        if (n == -1) {
-          const il::int_t nb_types = il::readVarint(il::io, k, file);
-
-          il::Array<il::String> key{nb_types};
-          il::Array<il::Type> type{nb_types};
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            const il::int_t key_size = il::readVarint(il::io, k, file);
-
-            il::Array<char> raw_string{key_size};
-            std::fread(raw_string.Data(), sizeof(char), key_size, file);
-            il::String my_string{il::StringType::Byte, raw_string.data(),
-                                 key_size};
-            key[i] = my_string;
-
-            const std::size_t error =
-                fread(&(type[i]), sizeof(il::Type), 1, file);
-            //            std::cout << "Here" << std::endl;
-          }
-          const il::int_t n = readVarint(il::io, k, file);
-          //          const std::size_t error = std::fread(&n,
-          //          sizeof(il::int_t), 1, file);
-
-          il::Array<il::Dynamic> array{nb_types};
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            switch (type[i]) {
-              case il::Type::Double: {
-                array[i] = il::Dynamic{il::Type::ArrayOfDouble};
-                il::Array<double>& ref = array[i].As<il::Array<double>>();
-                ref.Resize(n);
-              } break;
-              case il::Type::Integer: {
-                array[i] = il::Dynamic{il::Type::ArrayOfInt32};
-                il::Array<int>& ref = array[i].As<il::Array<int>>();
-                ref.Resize(n);
-              } break;
-              default:
-                IL_UNREACHABLE;
-            }
-          }
-
-          for (il::int_t j = 0; j < n; ++j) {
-            for (il::int_t i = 0; i < nb_types; ++i) {
-              switch (type[i]) {
-                case il::Type::Double: {
-                  il::Array<double>& ref = array[i].As<il::Array<double>>();
-                  double value = 0.0;
-                  const std::size_t error =
-                      std::fread(&value, sizeof(double), 1, file);
-                  ref[j] = value;
-                } break;
-                case il::Type::Integer: {
-                  il::Array<int>& ref = array[i].As<il::Array<int>>();
-                  int value = 0;
-                  const std::size_t error =
-                      std::fread(&value, sizeof(int), 1, file);
-                  ref[j] = value;
-                } break;
-                default:
-                  IL_UNREACHABLE;
-              }
-            }
-          }
-          std::cout << "End" << std::endl;
-        } else {
-          il::int_t n_map = 0;
-          const il::int_t n = readVarint(il::io, n_map, file);
-          il::int_t size = 0;
-          il::spot_t i = config.search(string);
-          config.Set(std::move(string),
-                     il::Dynamic{il::MapArray<il::String, il::Dynamic>{n}},
-                     il::io, i);
-          if (!config.found(i)) {
-          }
-          il::MapArray<il::String, il::Dynamic>& config_inner =
-              config.Value(i).As<il::MapArray<il::String, il::Dynamic>>();
-          auxLoad(size, il::io, config_inner, file);
-          k += size;
+        il::int_t n_map = 0;
+        const il::int_t n = readVarint(il::io, n_map, file);
+        il::int_t size = 0;
+        il::spot_t i = config.search(string);
+        config.Set(std::move(string),
+                   il::Dynamic{il::MapArray<il::String, il::Dynamic>{n}},
+                   il::io, i);
+        if (!config.found(i)) {
         }
+        il::MapArray<il::String, il::Dynamic>& config_inner =
+            config.Value(i).As<il::MapArray<il::String, il::Dynamic>>();
+        auxLoad(size, il::io, config_inner, file);
+        k += size;
       } break;
         /*
               case il::Type::MapStringToDynamic:
@@ -524,7 +469,11 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
     writeVarint(string_size, il::io, n, file);
     std::fwrite(data.key(i).asCString(), sizeof(char), string_size, file);
     n += data.key(i).size();
-    const il::Type type = data.value(i).type();
+    const bool save_as_array_of_struct =
+        (data.value(i).type() == il::Type::MapArrayStringToDynamic &&
+         option.size() == 1 && option[0] == data.key(i));
+    const il::Type type = save_as_array_of_struct ? il::Type::ArrayOfStruct
+                                                  : data.value(i).type();
     std::fwrite(&type, sizeof(il::Type), 1, file);
     n += sizeof(il::Type);
 
@@ -586,8 +535,6 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
         n += 2 * sizeof(il::int_t) + sizeof(double) * size0 * size1;
       } break;
       case il::Type::MapArrayStringToDynamic: {
-        const bool save_as_array_of_struct =
-            (option.size() == 1 && option[0] == data.key(i));
         if (save_as_array_of_struct) {
           const il::MapArray<il::String, il::Dynamic>& my_data =
               data.value(i).as<il::MapArray<il::String, il::Dynamic>>();
@@ -596,7 +543,7 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
           const il::int_t population_struct = my_data.nbElements();
           writeVarint(population_struct, il::io, k, file);
 
-          il::int_t n;
+          il::int_t n = 0;
           bool size_of_array_is_known = false;
           for (il::spot_t i = my_data.spotBegin(); i != my_data.spotEnd();
                i = my_data.next(i)) {
@@ -667,7 +614,6 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
           //        std::fwrite(&n_map, sizeof(il::int_t), 1, file);
           //        std::fseek(file, n_map, SEEK_CUR);
         }
-        std::cout << "End write" << std::endl;
       } break;
       default:
         IL_UNREACHABLE;
-- 
2.43.0


From 6667380b17fff06a62b2c5bc2de31c50c2c02f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 105/134] fix: saving an Array2D to a numpy file takes its
 columns where they are

---
 il/io/numpy/numpy.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index a895daf..dd5d213 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -149,9 +149,11 @@ class SaveHelper<il::Array2D<T>> {
       return;
     }
 
-    std::size_t written =
-        std::fwrite(A.data(), sizeof(T),
-                    static_cast<std::size_t>(A.size(0) * A.size(1)), file);
+    std::size_t written = 0;
+    for (il::int_t j = 0; j < A.size(1); ++j) {
+      written += std::fwrite(A.data() + j * A.capacity(0), sizeof(T),
+                             static_cast<std::size_t>(A.size(0)), file);
+    }
     if (static_cast<il::int_t>(written) != A.size(0) * A.size(1)) {
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
       IL_SET_SOURCE(status);
-- 
2.43.0


From 940715ecc44b0f5c8ae2ac4826f222f2ebf01a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 106/134] fix: il::load chooses the format from the extension
 also for a std::string

---
 il/io/io_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/io_base.h b/il/io/io_base.h
index 05f8c6f..bbd4192 100644
--- a/il/io/io_base.h
+++ b/il/io/io_base.h
@@ -116,7 +116,7 @@ template <typename T>
 T load(const std::string& filename, il::io_t, il::Status& status) {
   il::String il_filename{il::StringType::Byte, filename.c_str(),
                          il::size(filename.c_str())};
-  return il::LoadHelper<T>::load(il_filename, il::io, status);
+  return il::load<T>(il_filename, il::io, status);
 }
 
 template <typename T>
-- 
2.43.0


From 42a36a9767e4055b8e120785a3ded7d95b230ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 107/134] fix: a sparse matrix is loaded from its three numpy
 files and a failure is reported

---
 il/io/numpy/numpy.h | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index dd5d213..5690e99 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -45,6 +45,13 @@ struct numpyType<int> {
   static constexpr const char* value = "i4";
 };
 
+#ifdef IL_64_BIT
+template <>
+struct numpyType<il::int_t> {
+  static constexpr const char* value = "i8";
+};
+#endif
+
 template <>
 struct numpyType<double> {
   static constexpr const char* value = "f8";
@@ -309,20 +316,29 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
     il::String filename_row = filename;
     filename_row.Append(".row");
     auto row =
-        il::load<il::Array<il::int_t>>(filename_row, il::io, local_status);
-    local_status.AbortOnError();
+        il::LoadHelper<il::Array<il::int_t>>::load(filename_row, il::io, local_status);
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
     il::String filename_column = filename;
     filename_column.Append(".column");
     auto column =
-        il::load<il::Array<il::int_t>>(filename_column, il::io, local_status);
-    local_status.AbortOnError();
+        il::LoadHelper<il::Array<il::int_t>>::load(filename_column, il::io, local_status);
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
     il::String filename_element = filename;
     filename_element.Append(".element");
     auto element =
-        il::load<il::Array<double>>(filename_element, il::io, local_status);
-    local_status.AbortOnError();
+        il::LoadHelper<il::Array<double>>::load(filename_element, il::io, local_status);
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
     const il::int_t n = row.size() - 1;
     status.SetOk();
-- 
2.43.0


From 461fae7ce56844717c6d8fd33b528a75b912d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 108/134] fix: the toml parser accepts a single digit after an
 underscore

---
 il/io/toml/toml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 0bb7df9..cca9855 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -147,7 +147,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
     ++i;
     if (i < string.size() && string[i] == '_') {
       ++i;
-      if (i == string.size() || (!string.hasDigit(i + 1))) {
+      if (i == string.size() || (!string.hasDigit(i))) {
         status.SetError(il::Error::ParseNumber);
         IL_SET_SOURCE(status);
         status.SetInfo("line", line_number_);
-- 
2.43.0


From 2def57323f5b47e3a00737948f17b60a5561a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 109/134] fix: the toml parser accepts a zero followed by a
 comma, a bracket or a comment

---
 il/io/toml/toml.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index cca9855..09149b1 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -133,8 +133,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
 
   // Check that there is no leading 0
   if (i + 1 < string.size() && string[i] == '0' &&
-      !(string[i + 1] == '.' || string[i + 1] == ' ' ||
-        string.hasNewLine(i + 1))) {
+      (string.hasDigit(i + 1) || string[i + 1] == '_')) {
     status.SetError(il::Error::ParseNumber);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
-- 
2.43.0


From 902e3674a5065030e60c382c08a5d34aa847fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 110/134] fix: the toml parser takes a number with an exponent
 or an underscore for the same type everywhere

---
 il/io/toml/toml.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 09149b1..b2772e7 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -72,14 +72,11 @@ il::Type TomlParser::parseType(il::StringView string, il::io_t,
     if (string[0] == '-' || string[0] == '+') {
       ++i;
     }
-    while (i < string.size() && string.hasDigit(i)) {
+    while (i < string.size() && (string.hasDigit(i) || string[i] == '_')) {
       ++i;
     }
-    if (i < string.size() && string[i] == '.') {
-      ++i;
-      while (i < string.size() && string.hasDigit(i)) {
-        ++i;
-      }
+    if (i < string.size() &&
+        (string[i] == '.' || string[i] == 'e' || string[i] == 'E')) {
       status.SetOk();
       return il::Type::Double;
     } else {
-- 
2.43.0


From 72a6bbc8d6d971ef819edc477e83b7ba50c7bdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 111/134] fix: the toml parser reports an array that begins
 with a comma

---
 il/io/toml/toml.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index b2772e7..54ce5ff 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -64,7 +64,12 @@ il::String TomlParser::currentLine() const {
 
 il::Type TomlParser::parseType(il::StringView string, il::io_t,
                                il::Status& status) {
-  if (string[0] == '"' || string[0] == '\'') {
+  if (string.isEmpty()) {
+    status.SetError(il::Error::ParseCanNotDetermineType);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return il::Type::Void;
+  } else if (string[0] == '"' || string[0] == '\'') {
     status.SetOk();
     return il::Type::UnicodeString;
   } else if (string.startsWithDigit() || string[0] == '-' || string[0] == '+') {
-- 
2.43.0


From bd4f412828d82c192d216c2f4934c1aa54c3dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 112/134] fix: the toml parser accepts nested arrays over
 several lines

---
 il/io/toml/toml.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 54ce5ff..61afd24 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -487,12 +487,20 @@ il::Dynamic TomlParser::parseObjectArray(il::Type object_type, char delimiter,
       il::abort();
     }
 
-    string = il::removeWhitespaceLeft(string);
+    string = skipWhitespaceAndComments(string, il::io, parse_status);
+    if (!parse_status.Ok()) {
+      status = std::move(parse_status);
+      return ans;
+    }
     if (string.isEmpty() || (string[0] != ',')) {
       break;
     }
     string.removePrefix(1);
-    string = il::removeWhitespaceLeft(string);
+    string = skipWhitespaceAndComments(string, il::io, parse_status);
+    if (!parse_status.Ok()) {
+      status = std::move(parse_status);
+      return ans;
+    }
   }
 
   if (string.isEmpty() || (string[0] != ']')) {
-- 
2.43.0


From 54a77c7473d23b0117fbc65b1e8d458fcc8ff9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 113/134] fix: the toml parser reports an inline table or a key
 that ends with the file

---
 il/io/toml/toml.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 61afd24..691e5f8 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -535,7 +535,7 @@ il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
       return ans;
     }
     string = il::removeWhitespaceLeft(string);
-  } while (string[0] == ',');
+  } while (!string.isEmpty() && string[0] == ',');
 
   if (string.isEmpty() || (string[0] != '}')) {
     status.SetError(il::Error::ParseTable);
@@ -594,7 +594,12 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
 
   il::String key{};
   string = il::removeWhitespaceLeft(string);
-  IL_EXPECT_FAST(string.size() > 0);
+  if (string.isEmpty()) {
+    status.SetError(il::Error::ParseKey);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return key;
+  }
 
   il::Status parse_status{};
   if (string[0] == '"') {
-- 
2.43.0


From 5ddf72a2b0ee0050d8db0b3e6d7bb601d0d27d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 114/134] fix: the toml parser reports a table that is not
 closed or is followed by something else

---
 il/io/toml/toml.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 691e5f8..7a052bd 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -834,10 +834,19 @@ void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
   // TODO: One should check the redefinition of a table (line 1680)
   IL_UNUSED(inserted);
 
+  if (string.isEmpty()) {
+    status.SetError(il::Error::ParseTable);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return;
+  }
   string.removePrefix(1);
   string = il::removeWhitespaceLeft(string);
-  if (!string.isEmpty() && (string[0] != '\n') && (string[0] != '#')) {
-    il::abort();
+  il::Status parse_status{};
+  checkEndOfLineOrComment(string, il::io, parse_status);
+  if (!parse_status.Ok()) {
+    status = std::move(parse_status);
+    return;
   }
   status.SetOk();
 }
-- 
2.43.0


From ddc9dfa71f7c221a300e50d40de8131f2355b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 115/134] fix: the toml parser reports an array of tables that
 is closed by a single bracket

---
 il/io/toml/toml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 7a052bd..c9e0f0f 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -920,7 +920,7 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
     return;
   }
   string.removePrefix(1);
-  if (string.isEmpty()) {
+  if (string.isEmpty() || string[0] != ']') {
     status.SetError(il::Error::ParseTable);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
-- 
2.43.0


From 1e7698111b4f34a5d6e8d2566f4d6b9ab73106b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 116/134] fix: the toml parser drops the quotes of a literal
 key

---
 il/io/toml/toml.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index c9e0f0f..0a76ff5 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -630,14 +630,30 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
     return key;
+  } else if (string[0] == '\'') {
+    //////////////////////////
+    // We have a key in a '..'
+    //////////////////////////
+    il::int_t j = 1;
+    while (j < string.size() && string[j] != '\'') {
+      ++j;
+    }
+    if (j == string.size()) {
+      status.SetError(il::Error::ParseString);
+      IL_SET_SOURCE(status);
+      status.SetInfo("line", line_number_);
+      return key;
+    }
+    key = il::String{il::StringType::Byte, string.data() + 1, j - 1};
+    string.removePrefix(j + 1);
+    string = il::removeWhitespaceLeft(string);
+    status.SetOk();
+    return key;
   } else {
-    /////////////////////////////////////
-    // We have a bare key: '..' or ->..<-
-    /////////////////////////////////////
+    ////////////////////////////////
+    // We have a bare key: ->..<-
+    ////////////////////////////////
     // Search for the end of the key and move back to drop the whitespaces
-    if (string[0] == '\'') {
-      string.removePrefix(1);
-    }
     il::int_t j = 0;
     if (end != '@') {
       while (j < string.size() && (string[j] != end)) {
-- 
2.43.0


From 04660253d035e4626f48a738034e497e128d7ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:09 +0000
Subject: [PATCH 117/134] fix: the toml writer names nested tables by their
 full path

---
 il/io/toml/toml.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 2b97fcf..12cbfa0 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -323,7 +323,12 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
         status.SetError(il::Error::FilesystemCanNotWriteToFile);
         return;
       }
-      save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), toml.key(i),
+      il::String full_name = name;
+      if (full_name.size() != 0) {
+        full_name.Append('.');
+      }
+      full_name.Append(toml.key(i));
+      save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), full_name,
                il::io, file, status);
       if (!status.Ok()) {
         status.Rearm();
@@ -357,7 +362,12 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
         status.SetError(il::Error::FilesystemCanNotWriteToFile);
         return;
       }
-      save_aux(value.as<il::Map<il::String, il::Dynamic>>(), toml.key(i),
+      il::String full_name = name;
+      if (full_name.size() != 0) {
+        full_name.Append('.');
+      }
+      full_name.Append(toml.key(i));
+      save_aux(value.as<il::Map<il::String, il::Dynamic>>(), full_name,
                il::io, file, status);
       if (!status.Ok()) {
         status.Rearm();
-- 
2.43.0


From b8a314cb04d28520910ecd1b2a0928251e18d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:09 +0000
Subject: [PATCH 118/134] fix: the toml writer writes the values of a table
 before its subtables

---
 il/io/toml/toml.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 12cbfa0..1f4261c 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -149,11 +149,17 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
   int error = 0;
   // Add an object that sets the error on destruction
 
+  // What follows the header of a table belongs to that table
+  for (int pass = 0; pass < 2; ++pass)
   for (il::spot_t i = toml.spotBegin(); i != toml.spotEnd(); i = toml.next(i)) {
     const il::Dynamic &value = toml.value(i);
     const il::Type type = value.type();
-    if (type != il::Type::MapArrayStringToDynamic &&
-        type != il::Type::MapStringToDynamic) {
+    const bool is_table = type == il::Type::MapArrayStringToDynamic ||
+                          type == il::Type::MapStringToDynamic;
+    if (is_table != (pass == 1)) {
+      continue;
+    }
+    if (!is_table) {
       error = std::fputs(toml.key(i).asCString(), file);
       if (error < 0) {
         status.SetError(il::Error::FilesystemCanNotWriteToFile);
-- 
2.43.0


From 8179de4e7b6fc8048d8787c36c55803f2d632cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:09 +0000
Subject: [PATCH 119/134] fix: the toml writer escapes the quotes and the
 control characters of a string

---
 il/io/toml/toml.h | 55 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 1f4261c..76a3069 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -87,6 +87,41 @@ class TomlParser {
   static bool containsDigit(char c);
 };
 
+inline int save_string(const il::String &string, il::io_t, std::FILE *file) {
+  il::String escaped{};
+  escaped.Append('"');
+  for (il::int_t i = 0; i < string.size(); ++i) {
+    const char c = string.asCString()[i];
+    switch (c) {
+      case '\b':
+        escaped.Append("\\b");
+        break;
+      case '\t':
+        escaped.Append("\\t");
+        break;
+      case '\n':
+        escaped.Append("\\n");
+        break;
+      case '\f':
+        escaped.Append("\\f");
+        break;
+      case '\r':
+        escaped.Append("\\r");
+        break;
+      case '"':
+        escaped.Append("\\\"");
+        break;
+      case '\\':
+        escaped.Append("\\\\");
+        break;
+      default:
+        escaped.Append(il::StringType::Byte, &c, 1);
+    }
+  }
+  escaped.Append('"');
+  return std::fputs(escaped.asCString(), file);
+}
+
 inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
                        std::FILE *file, il::Status &status) {
   const int error0 = std::fputs("[ ", file);
@@ -115,13 +150,9 @@ inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
         IL_UNUSED(error2);
       } break;
       case il::Type::UnicodeString: {
-        const int error2 = std::fputs("\"", file);
-        const int error3 =
-            std::fputs(array[j].as<il::String>().asCString(), file);
-        const int error4 = std::fputs("\"", file);
+        const int error2 =
+            save_string(array[j].as<il::String>(), il::io, file);
         IL_UNUSED(error2);
-        IL_UNUSED(error3);
-        IL_UNUSED(error4);
       } break;
       case il::Type::ArrayOfDynamic: {
         save_array(array[j].as<il::Array<il::Dynamic>>(), il::io, file, status);
@@ -197,17 +228,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
           }
           break;
         case il::Type::UnicodeString:
-          error = std::fputs("\"", file);
-          if (error < 0) {
-            status.SetError(il::Error::FilesystemCanNotWriteToFile);
-            return;
-          }
-          error = std::fputs(value.as<il::String>().asCString(), file);
-          if (error < 0) {
-            status.SetError(il::Error::FilesystemCanNotWriteToFile);
-            return;
-          }
-          error = std::fputs("\"", file);
+          error = save_string(value.as<il::String>(), il::io, file);
           if (error < 0) {
             status.SetError(il::Error::FilesystemCanNotWriteToFile);
             return;
-- 
2.43.0


From 79b188a90dbf185d85b545aa8386759c9d33c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 120/134] fix: a double is written to a toml file with all its
 digits

---
 il/io/toml/toml.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 76a3069..5451dcf 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -146,7 +146,7 @@ inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
         IL_UNUSED(error2);
       } break;
       case il::Type::Double: {
-        const int error2 = std::fprintf(file, "%e", array[j].to<double>());
+        const int error2 = std::fprintf(file, "%.16e", array[j].to<double>());
         IL_UNUSED(error2);
       } break;
       case il::Type::UnicodeString: {
@@ -221,7 +221,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
           }
           break;
         case il::Type::Double:
-          error = std::fprintf(file, "%e", value.to<double>());
+          error = std::fprintf(file, "%.16e", value.to<double>());
           if (error < 0) {
             status.SetError(il::Error::FilesystemCanNotWriteToFile);
             return;
@@ -242,7 +242,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
             return;
           }
           for (il::int_t i = 0; i < v.size(); ++i) {
-            error = std::fprintf(file, "%e", v[i]);
+            error = std::fprintf(file, "%.16e", v[i]);
             if (error < 0) {
               status.SetError(il::Error::FilesystemCanNotWriteToFile);
               return;
@@ -275,7 +275,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
               return;
             }
             for (il::int_t j = 0; j < v.size(1); ++j) {
-              error = std::fprintf(file, "%e", v(i, j));
+              error = std::fprintf(file, "%.16e", v(i, j));
               if (error < 0) {
                 status.SetError(il::Error::FilesystemCanNotWriteToFile);
                 return;
-- 
2.43.0


From 5aff2f86c41144a6f4acef1f50cdfefefe253977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:21 +0000
Subject: [PATCH 121/134] fix: a key that is not bare is written quoted to a
 toml file

---
 il/io/toml/toml.h | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 5451dcf..91ec463 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -87,7 +87,7 @@ class TomlParser {
   static bool containsDigit(char c);
 };
 
-inline int save_string(const il::String &string, il::io_t, std::FILE *file) {
+inline il::String toml_string(const il::String &string) {
   il::String escaped{};
   escaped.Append('"');
   for (il::int_t i = 0; i < string.size(); ++i) {
@@ -119,7 +119,22 @@ inline int save_string(const il::String &string, il::io_t, std::FILE *file) {
     }
   }
   escaped.Append('"');
-  return std::fputs(escaped.asCString(), file);
+  return escaped;
+}
+
+// A key that is not made of letters, digits, '_' and '-' has to be quoted
+inline il::String toml_key(const il::String &key) {
+  bool bare = key.size() > 0;
+  for (il::int_t i = 0; i < key.size(); ++i) {
+    const char c = key.asCString()[i];
+    bare = bare && ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ||
+                    (c >= '0' && c <= '9') || c == '_' || c == '-');
+  }
+  return bare ? key : toml_string(key);
+}
+
+inline int save_string(const il::String &string, il::io_t, std::FILE *file) {
+  return std::fputs(toml_string(string).asCString(), file);
 }
 
 inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
@@ -191,7 +206,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
       continue;
     }
     if (!is_table) {
-      error = std::fputs(toml.key(i).asCString(), file);
+      error = std::fputs(toml_key(toml.key(i)).asCString(), file);
       if (error < 0) {
         status.SetError(il::Error::FilesystemCanNotWriteToFile);
         return;
@@ -340,7 +355,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
           return;
         }
       }
-      error = std::fputs(toml.key(i).asCString(), file);
+      error = std::fputs(toml_key(toml.key(i)).asCString(), file);
       if (error < 0) {
         status.SetError(il::Error::FilesystemCanNotWriteToFile);
         return;
@@ -354,7 +369,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
       if (full_name.size() != 0) {
         full_name.Append('.');
       }
-      full_name.Append(toml.key(i));
+      full_name.Append(toml_key(toml.key(i)));
       save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), full_name,
                il::io, file, status);
       if (!status.Ok()) {
@@ -379,7 +394,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
           return;
         }
       }
-      error = std::fputs(toml.key(i).asCString(), file);
+      error = std::fputs(toml_key(toml.key(i)).asCString(), file);
       if (error < 0) {
         status.SetError(il::Error::FilesystemCanNotWriteToFile);
         return;
@@ -393,7 +408,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
       if (full_name.size() != 0) {
         full_name.Append('.');
       }
-      full_name.Append(toml.key(i));
+      full_name.Append(toml_key(toml.key(i)));
       save_aux(value.as<il::Map<il::String, il::Dynamic>>(), full_name,
                il::io, file, status);
       if (!status.Ok()) {
-- 
2.43.0


From a19c9ba5fe225372a0eb58015cf8125ae019b153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:21 +0000
Subject: [PATCH 122/134] fix: an array of tables below another table is parsed

---
 il/io/toml/toml.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 0a76ff5..164e05d 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -911,6 +911,21 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
         il::Array<il::Dynamic>& v = b.As<il::Array<il::Dynamic>>();
         v.Append(il::Dynamic{il::MapArray<il::String, il::Dynamic>{}});
         toml = &(v.Back().As<il::MapArray<il::String, il::Dynamic>>());
+      } else if (b.is<il::MapArray<il::String, il::Dynamic>>()) {
+        toml = &(b.As<il::MapArray<il::String, il::Dynamic>>());
+      } else if (b.is<il::Array<il::Dynamic>>() &&
+                 b.as<il::Array<il::Dynamic>>().size() > 0 &&
+                 b.as<il::Array<il::Dynamic>>()
+                     .back()
+                     .is<il::MapArray<il::String, il::Dynamic>>()) {
+        toml = &(b.As<il::Array<il::Dynamic>>()
+                     .Back()
+                     .As<il::MapArray<il::String, il::Dynamic>>());
+      } else {
+        status.SetError(il::Error::ParseDuplicateKey);
+        IL_SET_SOURCE(status);
+        status.SetInfo("line", line_number_);
+        return;
       }
     } else {
       if (!string.isEmpty() && string[0] == ']') {
@@ -927,6 +942,11 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
         toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
       }
     }
+
+    while (!string.isEmpty() && string[0] == '.') {
+      string.removePrefix(1);
+    }
+    string = il::removeWhitespaceLeft(string);
   }
 
   if (string.isEmpty()) {
-- 
2.43.0


From 78cfcbb334a528674f063f9208fdedcd54b138b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:54 +0000
Subject: [PATCH 123/134] fix: a quoted key of a toml file may contain
 characters that are not ascii

---
 il/io/toml/toml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 164e05d..9887e96 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -622,8 +622,8 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
         return key;
       } else {
         // Check what's going on with unicode
-        key.Append(string[0]);
-        string.removePrefix(1);
+        key.Append(string.rune(0));
+        string.removePrefix(string.nextRune(0));
       }
     }
     status.SetError(il::Error::ParseString);
-- 
2.43.0


From 35e350e047aa2ac43d99d52f0fc7743f1c4fd6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 124/134] fix: a text of a toml file that is not utf-8 is an
 error

---
 il/io/toml/toml.cpp | 24 ++++++++++++++++++++++--
 il/io/toml/toml.h   |  1 +
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 9887e96..3f4a293 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -44,6 +44,22 @@ il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
   return string;
 }
 
+// Whether the string starts with the UTF-8 encoding of a character
+bool TomlParser::startsWithRune(il::StringView string) {
+  const unsigned char c = static_cast<unsigned char>(string[0]);
+  il::int_t n = 0;
+  if (c < 0x80u) {
+    n = 1;
+  } else if (c >= 0xC0u && c < 0xE0u) {
+    n = 2;
+  } else if (c >= 0xE0u && c < 0xF0u) {
+    n = 3;
+  } else if (c >= 0xF0u && c < 0xF8u) {
+    n = 4;
+  }
+  return n == string.nextRune(0) && il::isRune(string.rune(0));
+}
+
 bool TomlParser::containsDigit(char c) { return c >= '0' && c <= '9'; }
 
 void TomlParser::checkEndOfLineOrComment(il::StringView string, il::io_t,
@@ -283,7 +299,9 @@ il::String TomlParser::parseStringLiteral(char delimiter, il::io_t,
       status.SetOk();
       return ans;
     } else {
-      // TODO: I am not sure what will happen with a Unicode string
+      if (!startsWithRune(string)) {
+        break;
+      }
       ans.Append(string.rune(0));
       string.removePrefix(string.nextRune(0));
     }
@@ -621,7 +639,9 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
         status.SetOk();
         return key;
       } else {
-        // Check what's going on with unicode
+        if (!startsWithRune(string)) {
+          break;
+        }
         key.Append(string.rune(0));
         string.removePrefix(string.nextRune(0));
       }
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 91ec463..4ba8574 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -85,6 +85,7 @@ class TomlParser {
 
  private:
   static bool containsDigit(char c);
+  static bool startsWithRune(il::StringView string);
 };
 
 inline il::String toml_string(const il::String &string) {
-- 
2.43.0


From e28f31dbed3b81ce751662ece7a61b2c6524f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 125/134] fix: a Map is saved to a toml file like a MapArray

---
 il/io/toml/toml.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 4ba8574..985fec3 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -424,7 +424,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
 }
 
 template <>
-class SaveHelper<il::Map<il::String, il::Dynamic>> {
+class SaveHelperToml<il::Map<il::String, il::Dynamic>> {
  public:
   static void save(const il::Map<il::String, il::Dynamic> &toml,
                    const il::String &filename, il::io_t, il::Status &status) {
-- 
2.43.0


From 6a55c85ad5c2046ce58f721bab2bcfbcfccafd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:50 +0000
Subject: [PATCH 126/134] fix: the toml parser reports an array of values that
 is not closed by a bracket

---
 il/io/toml/toml.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 3f4a293..06e575b 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -472,9 +472,13 @@ il::Dynamic TomlParser::parseValueArray(il::Type value_type, il::io_t,
     }
   }
 
-  if (!string.isEmpty()) {
-    string.removePrefix(1);
+  if (string.isEmpty() || (string[0] != ']')) {
+    status.SetError(il::Error::ParseArray);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return ans;
   }
+  string.removePrefix(1);
 
   status.SetOk();
   return ans;
-- 
2.43.0


From 536c3d2bcb53d46d8edaa6972130147c584d5d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:50 +0000
Subject: [PATCH 127/134] fix: the toml parser accepts an array of inline
 tables

---
 il/io/toml/toml.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 06e575b..207c18d 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -425,6 +425,16 @@ il::Dynamic TomlParser::parseArray(il::io_t, il::StringView& string,
       status.SetOk();
       return ans;
     }
+    case il::Type::MapArrayStringToDynamic: {
+      ans = parseObjectArray(il::Type::MapArrayStringToDynamic, '{', il::io,
+                             string, parse_status);
+      if (!parse_status.Ok()) {
+        status = std::move(parse_status);
+        return ans;
+      }
+      status.SetOk();
+      return ans;
+    }
     default:
       il::abort();
       return ans;
@@ -505,6 +515,12 @@ il::Dynamic TomlParser::parseObjectArray(il::Type object_type, char delimiter,
         status = std::move(parse_status);
         return ans;
       }
+    } else if (object_type == il::Type::MapArrayStringToDynamic) {
+      array.Append(parseInlineTable(il::io, string, parse_status));
+      if (!parse_status.Ok()) {
+        status = std::move(parse_status);
+        return ans;
+      }
     } else {
       il::abort();
     }
-- 
2.43.0


From 4ae0f5704a505d53e9c96ccadcb3a6c69857f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:50 +0000
Subject: [PATCH 128/134] fix: the toml parser accepts an empty inline table

---
 il/io/toml/toml.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 207c18d..a8bae8e 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -555,6 +555,7 @@ il::Dynamic TomlParser::parseObjectArray(il::Type object_type, char delimiter,
 il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
                                          il::Status& status) {
   il::Dynamic ans = il::Dynamic{il::MapArray<il::String, il::Dynamic>{}};
+  bool is_first = true;
   do {
     string.removePrefix(1);
     if (string.isEmpty()) {
@@ -564,6 +565,10 @@ il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
       return ans;
     }
     string = il::removeWhitespaceLeft(string);
+    if (is_first && !string.isEmpty() && string[0] == '}') {
+      break;
+    }
+    is_first = false;
     il::Status parse_status{};
     parseKeyValue(il::io, string,
                   ans.As<il::MapArray<il::String, il::Dynamic>>(),
-- 
2.43.0


From db64ac5fafb994d7172000090d3a5a6462597b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 129/134] fix: the toml parser reads lines of any length

---
 il/io/toml/toml.cpp | 28 ++++++++++++++++++++++------
 il/io/toml/toml.h   |  5 +++--
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index a8bae8e..342bb71 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -23,20 +23,36 @@ namespace il {
 
 TomlParser::TomlParser() {}
 
+// Read the next line of the file, whatever its length
+bool TomlParser::readLine() {
+  char piece[max_piece_length_ + 1];
+  bool read = false;
+  buffer_line_ = il::String{};
+  while (std::fgets(piece, max_piece_length_ + 1, file_) != nullptr) {
+    read = true;
+    const il::int_t n = il::size(piece);
+    buffer_line_.Append(il::StringType::Byte, piece, n);
+    if (n < max_piece_length_ || piece[n - 1] == '\n') {
+      break;
+    }
+  }
+  return read;
+}
+
 il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
                                                      il::io_t,
                                                      il::Status& status) {
   string.trimPrefix();
   while (string.isEmpty() || string[0] == '#' || string.startsWithNewLine()) {
-    const char* error = std::fgets(buffer_line_, max_line_length_ + 1, file_);
-    if (error == nullptr) {
+    if (!readLine()) {
       status.SetError(il::Error::ParseUnclosedArray);
       IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return string;
     }
     ++line_number_;
-    string = il::StringView{buffer_line_};
+    string = il::StringView{il::StringType::Byte, buffer_line_.data(),
+                            buffer_line_.size()};
     string.trimPrefix();
   }
 
@@ -1039,11 +1055,11 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   }
 
   line_number_ = 0;
-  while (std::fgets(buffer_line_, max_line_length_ + 1, file_) != nullptr) {
+  while (readLine()) {
     ++line_number_;
 
-    il::StringView line{il::StringType::Byte, buffer_line_,
-                        il::size(buffer_line_)};
+    il::StringView line{il::StringType::Byte, buffer_line_.data(),
+                        buffer_line_.size()};
     line = il::removeWhitespaceLeft(line);
 
     if (line.isEmpty() || line.startsWithNewLine() || line[0] == '#') {
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 985fec3..40ceb21 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -38,8 +38,8 @@ namespace il {
 
 class TomlParser {
  private:
-  static const il::int_t max_line_length_ = 200;
-  char buffer_line_[max_line_length_ + 1];
+  static const il::int_t max_piece_length_ = 200;
+  il::String buffer_line_;
   il::int_t line_number_;
   std::FILE *file_;
 
@@ -84,6 +84,7 @@ class TomlParser {
   il::Dynamic parseString(il::io_t, il::StringView &string, il::Status &status);
 
  private:
+  bool readLine();
   static bool containsDigit(char c);
   static bool startsWithRune(il::StringView string);
 };
-- 
2.43.0


From c6d8f416e5fe7e9a02eed035fa2a4e3e3a0de9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:56 +0000
Subject: [PATCH 130/134] fix: readPpm ends on a file that stops in a comment

---
 il/io/ppm/ppm.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 035fe4d..cfbccc5 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -68,9 +68,12 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   // Check for comments
   int c{std::getc(fp)};
   while (c == '#') {
-    while (std::getc(fp) != '\n') {
-    };
-    c = std::getc(fp);
+    while (c != '\n' && c != EOF) {
+      c = std::getc(fp);
+    }
+    if (c == '\n') {
+      c = std::getc(fp);
+    }
   }
   std::ungetc(c, fp);
 
-- 
2.43.0


From fc2028df8813d5eaca16400bcfbca39bb0421bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:56 +0000
Subject: [PATCH 131/134] fix: readPpm ends on a file that stops in its header

---
 il/io/ppm/ppm.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index cfbccc5..c3b43ed 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -118,8 +118,9 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
-  while (std::fgetc(fp) != '\n') {
-  };
+  do {
+    c = std::fgetc(fp);
+  } while (c != '\n' && c != EOF);
 
   // read pixel data from file
   image.Resize(width, height);
-- 
2.43.0


From 804ff11e1953b1048ae426c6f9163abbac28245e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:56 +0000
Subject: [PATCH 132/134] fix: readPpm reports an error when a size is negative

---
 il/io/ppm/ppm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index c3b43ed..2fa9265 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -113,7 +113,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   }
 #endif
   // check rgb component depth
-  if (rgb_comp_color != 255) {
+  if (rgb_comp_color != 255 || width < 0 || height < 0) {
     std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
-- 
2.43.0


From c8be94037b56eca81cc31fe1d530aff0f335c8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 133/134] fix: initialise the maximum number of iterations of a
 preconditioned Gmres

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 146a193..7fc7810 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -133,6 +133,7 @@ Gmres<T>::Gmres(const il::FunctorArray<T>& m, const il::FunctorArray<T>& cond,
 
   n_ = m.size(1);
   restart_iteration_ = restart_iteration;
+  max_nb_iterations_ = 100;
   const il::int_t tmp_size = (2 * restart_iteration_ + 1) * n_ +
                              restart_iteration_ * (restart_iteration_ + 9) / 2 +
                              1;
-- 
2.43.0


From b362a7b7887272ed4de83954baf1ffc874f05762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:37 +0000
Subject: [PATCH 134/134] fix: Gmres::Solve reports an error when the maximum
 number of iterations is reached

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 23 ++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 7fc7810..021d557 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -422,6 +422,7 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
                 dpar_.Data(), tmp_.Data());
   IL_EXPECT_FAST(RCI_request_ == 0);
   bool stop_iteration = false;
+  bool max_nb_iterations_reached = false;
   double y_norm = dnrm2(&n_, yloc_.data(), &one_int);
   while (!stop_iteration) {
     // The beginning of the iteration
@@ -429,8 +430,10 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
             dpar_.Data(), tmp_.Data());
     switch (RCI_request_) {
       case 0:
-        // In that case, the solution has been found with the right precision.
-        // This occurs only if the stopping test is fully automatic.
+      case -1:
+        // As our stopping test on the residual is user-defined, this occurs only
+        // when the maximum number of iterations has been reached.
+        max_nb_iterations_reached = true;
         stop_iteration = true;
         break;
       case 1: {
@@ -501,6 +504,22 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
               dpar_.data(), tmp_.Data(), &itercount);
 
   nb_iterations_ = itercount;
+
+  if (max_nb_iterations_reached) {
+    // The last iterate has not been tested yet
+    il::ArrayEdit<double> my_residual = residual_.Edit();
+    for (il::int_t i = 0; i < n_; ++i) {
+      my_residual[i] = 0.0;
+    }
+    (*m_)(x, il::io, my_residual);
+    daxpy(&n_, &minus_one_double, yloc_.data(), &one_int, residual_.Data(),
+          &one_int);
+    const double norm_residual = dnrm2(&n_, residual_.data(), &one_int);
+    if (!(norm_residual <= relative_precision * y_norm)) {
+      status.SetError(il::Error::Undefined);
+      return;
+    }
+  }
   status.SetOk();
 }
 
-- 
2.43.0

