From d11c94b139241a9df94cba94a4974726ae681328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 01/40] fix: copying a Vector without storage left the data
 pointer uninitialised

---
 include/efp/sequence.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index e8ab096..f255fbc 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -557,7 +557,8 @@ namespace detail {
         VectorBase() : _allocator(Allocator()), _data(nullptr), _size(0), _capacity(0) {}
 
         VectorBase(const VectorBase& other)
-            : _allocator(other._allocator), _size(other._size), _capacity(other._capacity) {
+            : _allocator(other._allocator), _data(nullptr), _size(other._size),
+              _capacity(other._capacity) {
             if (other._data) {
                 // Member function call in not allowed in member initializer list
                 // _data = _allocator.allocate(_capacity);
-- 
2.43.0


From 1c010e87ba3d44208a5480831f1780b69aa00995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 02/40] fix: Vector copy assignment kept the old size and moved
 destroyed elements

---
 include/efp/sequence.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index f255fbc..8113827 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -579,14 +579,19 @@ namespace detail {
                     AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
                 }
 
+                // No element is alive from here on, reserve must not move any
+                _size = 0;
+
                 if (_capacity < other._size + 1) {
-                    resize(other._size);
+                    reserve(other._size + 1);
                 }
 
                 for (size_t i = 0; i < other._size; ++i) {
                     // _allocator.construct(_data + i, other._data[i]);
                     AllocatorTraits<Allocator>::construct(_allocator, _data + i, other._data[i]);
                 }
+
+                _size = other._size;
             }
 
             return *this;
-- 
2.43.0


From 6e932b829781e3c06b0560d313386dc00992984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 03/40] fix: resize of Vector and ArrVec neither constructed
 nor destroyed elements

---
 include/efp/sequence.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 8113827..b28614e 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -360,6 +360,14 @@ public:
             throw RuntimeError("ArrVec::resize: length must be less than or equal to ct_capacity");
         }
 
+        for (size_t i = length; i < _size; ++i) {
+            (_data + i)->~Element();
+        }
+
+        for (size_t i = _size; i < length; ++i) {
+            new (_data + i) Element {};
+        }
+
         _size = length;
     }
 
@@ -711,11 +719,23 @@ namespace detail {
         }
 
         void resize(size_t new_size) {
+            for (size_t i = new_size; i < _size; ++i) {
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
+            }
+
+            if (new_size < _size) {
+                _size = new_size;
+            }
+
             // Always allocate one extra space for BasicString null terminator
             if (new_size + 1 > _capacity) {
                 reserve(new_size + 1);
             }
 
+            for (size_t i = _size; i < new_size; ++i) {
+                AllocatorTraits<Allocator>::construct(_allocator, _data + i);
+            }
+
             _size = new_size;
         }
 
-- 
2.43.0


From 058aa8ab2bb4290bdea0a2bb10f36d4f10c58371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 04/40] fix: Vector insert and erase assigned to dead elements
 and lost live ones

---
 include/efp/sequence.hpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index b28614e..42fd216 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -844,16 +844,30 @@ namespace detail {
                 throw RuntimeError("VectorBase::insert: index must be less than or equal to size");
             }
 
+            // value may refer to an element of this vector
+            Element copy(value);
+
             if (_size + 1 >= _capacity) {
                 reserve(_capacity == 0 ? 2 : 2 * _capacity);
             }
 
-            for (size_t i = _size; i > index; --i) {
-                _data[i] = efp::move(_data[i - 1]);
+            if (index == _size) {
+                // _allocator.construct(_data + index, efp::move(copy));
+                AllocatorTraits<Allocator>::construct(_allocator, _data + index, efp::move(copy));
+            } else {
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + _size,
+                    efp::move(_data[_size - 1])
+                );
+
+                for (size_t i = _size - 1; i > index; --i) {
+                    _data[i] = efp::move(_data[i - 1]);
+                }
+
+                _data[index] = efp::move(copy);
             }
 
-            // _allocator.construct(_data + index, value);
-            AllocatorTraits<Allocator>::construct(_allocator, _data + index, value);
             ++_size;
         }
 
@@ -862,13 +876,12 @@ namespace detail {
                 throw RuntimeError("VectorBase::erase: index must be less than or equal to size");
             }
 
-            // _allocator.destroy(_data + index);
-            AllocatorTraits<Allocator>::destroy(_allocator, _data + index);
-
             for (size_t i = index; i < _size - 1; ++i) {
                 _data[i] = efp::move(_data[i + 1]);
             }
 
+            // _allocator.destroy(_data + _size - 1);
+            AllocatorTraits<Allocator>::destroy(_allocator, _data + _size - 1);
             --_size;
         }
 
-- 
2.43.0


From e927f565647574c7d2dc4070f606f9f3bd44feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:34 +0000
Subject: [PATCH 05/40] fix: Vector push_back and emplace_back read an argument
 inside released storage

---
 include/efp/sequence.hpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 42fd216..30e9cb1 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -797,36 +797,48 @@ namespace detail {
 
         void push_back(const Element& value) {
             if (_size + 1 >= _capacity) {
+                // value may refer to an element of this vector
+                Element copy(value);
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(copy));
+            } else {
+                // _allocator.construct(_data + _size, value);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, value);
             }
 
-            // _allocator.construct(_data + _size, value);
-            AllocatorTraits<Allocator>::construct(_allocator, _data + _size, value);
             ++_size;
         }
 
         void push_back(Element&& value) {
             if (_size + 1 >= _capacity) {
+                // value may refer to an element of this vector
+                Element moved(efp::move(value));
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(moved));
+            } else {
+                // _allocator.construct(_data + _size, efp::move(value));
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(value));
             }
 
-            // _allocator.construct(_data + _size, efp::move(value));
-            AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(value));
             ++_size;
         }
 
         template<typename... Args>
         void emplace_back(Args&&... args) {
             if (_size + 1 >= _capacity) {
+                // args may refer to elements of this vector
+                Element value(efp::forward<Args>(args)...);
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(value));
+            } else {
+                // _allocator.construct(_data + _size, efp::forward<Args>(args)...);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + _size,
+                    efp::forward<Args>(args)...
+                );
             }
 
-            // _allocator.construct(_data + _size, efp::forward<Args>(args)...);
-            AllocatorTraits<Allocator>::construct(
-                _allocator,
-                _data + _size,
-                efp::forward<Args>(args)...
-            );
             ++_size;
         }
 
-- 
2.43.0


From 7a2f51eae85651c50c115ec2d1fca6b8d2d7d1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:26 +0000
Subject: [PATCH 06/40] fix: moving an ArrVec never destroyed the moved-from
 elements

---
 include/efp/sequence.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 30e9cb1..8be9150 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -273,10 +273,11 @@ public:
     }
 
     ArrVec(ArrVec&& other) noexcept : _size {other._size} {
-        other._size = 0;
         for (size_t i = 0; i < _size; ++i) {
             new (_data + i) Element {efp::move(other._data[i])};
         }
+
+        other.clear();
     }
 
     ArrVec& operator=(ArrVec&& other) noexcept {
@@ -293,7 +294,7 @@ public:
             }
 
             // Reset the source object
-            other._size = 0;
+            other.clear();
         }
         return *this;
     }
-- 
2.43.0


From 3e34f00ee79f40a63277be8fb13d2ae950e7d541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:26 +0000
Subject: [PATCH 07/40] fix: ArrVec conversion copied the capacity instead of
 the size of its source

---
 include/efp/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 8be9150..e2e9885 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -307,8 +307,8 @@ public:
 
     // Constructor from array
     template<size_t ct_size_, typename = EnableIf<ct_capacity >= ct_size_, void>>
-    ArrVec(const ArrVec<Element, ct_size_>& as) : _size(ct_size_) {
-        for (size_t i = 0; i < ct_size_; ++i) {
+    ArrVec(const ArrVec<Element, ct_size_>& as) : _size(as.size()) {
+        for (size_t i = 0; i < _size; ++i) {
             new (_data + i) Element {as[i]};
         }
     }
-- 
2.43.0


From 5ba42e5e3508da3140a0b6cb193cd2432d6b4665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:26 +0000
Subject: [PATCH 08/40] fix: ArrVec insert read an argument it had already
 moved or destroyed

---
 include/efp/sequence.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index e2e9885..ac03c86 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -402,12 +402,15 @@ public:
             );
         }
 
+        // value may refer to an element of this vector
+        Element copy(value);
+
         for (size_t i = _size; i > index; --i) {
             new (_data + i) Element(efp::move(_data[i - 1]));
             (_data + i - 1)->~Element();
         }
 
-        new (_data + index) Element(value);
+        new (_data + index) Element(efp::move(copy));
 
         ++_size;
     }
-- 
2.43.0


From 3a49520ff4ae1ab6e1c36a970440d24fd3b1e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:17 +0000
Subject: [PATCH 09/40] fix: append depended on the evaluation order of
 function arguments

---
 include/efp/prelude.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 8a9fc99..cd60cf0 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -241,7 +241,11 @@ auto append(const As& as, const Ass&... ass) -> AppendReturn<As, Ass...> {
     }
 
     size_t idx = 0;
-    execute_pack(detail::append_impl(idx, res, as), detail::append_impl(idx, res, ass)...);
+    // A braced list is evaluated left to right, function arguments are in no fixed order
+    const Unit in_order[] = {
+        detail::append_impl(idx, res, as),
+        detail::append_impl(idx, res, ass)...};
+    (void)in_order;
 
     return res;
 }
-- 
2.43.0


From 701390d7610cec6a30a8266cbeb8aeb912a473f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:17 +0000
Subject: [PATCH 10/40] fix: cartesian_for_each_mut passed a constant copy of
 the outer element

---
 include/efp/prelude.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index cd60cf0..5b5881c 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -429,7 +429,7 @@ void cartesian_for_each_mut(const F& f, As& as, Ass&... ass) {
     const auto as_len = length(as);
 
     for (size_t i = 0; i < as_len; ++i) {
-        const auto a = nth(i, as);
+        auto& a = nth(i, as);
         const auto inner = [&](Element<Ass>&... xs) { f(a, xs...); };
 
         cartesian_for_each_mut(inner, ass...);
-- 
2.43.0


From 8ea72f57329b415de23a5e92a114156df2daf21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:17 +0000
Subject: [PATCH 11/40] fix: self-assignment of Vcb and Vcq copied destroyed
 elements

---
 include/efp/cyclic.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index efb6db3..af3726b 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -31,6 +31,10 @@ class Vcb {
     }
 
     Vcb& operator=(const Vcb& other) {
+        if (this == &other) {
+            return *this;
+        }
+
         for (size_t i = 0; i < ct_size * 2; ++i) {
             (_buffer + i)->~A();
             new (_buffer + i) A(other._buffer[i]);
@@ -48,6 +52,10 @@ class Vcb {
     }
 
     Vcb operator=(Vcb&& other) noexcept {
+        if (this == &other) {
+            return *this;
+        }
+
         for (size_t i = 0; i < ct_size * 2; ++i) {
             (_buffer + i)->~A();
             new (_buffer + i) A(efp::move(other._buffer[i]));
@@ -193,6 +201,10 @@ class Vcq {
     }
 
     Vcq& operator=(const Vcq& other) {
+        if (this == &other) {
+            return *this;
+        }
+
         const auto read_offset = _read - _buffer;
         for (size_t i = 0; i < _size; ++i) {
             const auto j =
@@ -232,6 +244,10 @@ class Vcq {
     }
 
     Vcq& operator=(Vcq&& other) noexcept {
+        if (this == &other) {
+            return *this;
+        }
+
         const auto read_offset = _read - _buffer;
         for (size_t i = 0; i < _size; ++i) {
             const auto j =
-- 
2.43.0


From 98a041c8501e98ba31086bbc1278b7120de3b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:17 +0000
Subject: [PATCH 12/40] fix: copying or moving a Vcq read the wrong slots of
 its source

---
 include/efp/cyclic.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index af3726b..f8a4e99 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -191,8 +191,8 @@ class Vcq {
         for (size_t i = 0; i < other._size; ++i) {
             const auto j =
                 read_offset + i < ct_capacity ? read_offset + i : read_offset + i - ct_capacity;
-            new (_buffer + j) A(other._buffer[i]);
-            new (_buffer + ct_capacity + j) A(other._buffer[i]);
+            new (_buffer + j) A(other._buffer[j]);
+            new (_buffer + ct_capacity + j) A(other._buffer[j]);
         }
 
         _size = other._size;
@@ -218,8 +218,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(other._buffer[i]);
-            new (_buffer + ct_capacity + j) A(other._buffer[i]);
+            new (_buffer + j) A(other._buffer[j]);
+            new (_buffer + ct_capacity + j) A(other._buffer[j]);
         }
 
         _size = other._size;
@@ -234,8 +234,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(efp::move(other._buffer[i]));
-            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[i]));
+            new (_buffer + j) A(efp::move(other._buffer[j]));
+            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[ct_capacity + j]));
         }
 
         _size = other._size;
@@ -261,8 +261,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(efp::move(other._buffer[i]));
-            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[i]));
+            new (_buffer + j) A(efp::move(other._buffer[j]));
+            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[ct_capacity + j]));
         }
 
         _size = other._size;
-- 
2.43.0


From 44bae9c1af30ad17e28f01abd5733d279ff2dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:17 +0000
Subject: [PATCH 13/40] fix: iteration over an empty Vcq visited its dead slots

---
 include/efp/cyclic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index f8a4e99..0f9c3a7 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -349,11 +349,11 @@ class Vcq {
     }
 
     const A* end() const {
-        return _write > _read ? _write : _write + ct_capacity;
+        return _read + _size;
     }
 
     A* end() {
-        return _write > _read ? _write : _write + ct_capacity;
+        return _read + _size;
     }
 
   private:
-- 
2.43.0


From 12206aab7853fc067433120cfc34b422975693ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:17 +0000
Subject: [PATCH 14/40] fix: Vcq push_back on a full queue read an argument it
 had destroyed

---
 include/efp/cyclic.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 0f9c3a7..6f65397 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -291,12 +291,16 @@ class Vcq {
 
     void push_back(const A& value) {
         if (_size == ct_capacity) {  // Has to destroy the oldest element if the buffer is full
+            const A copy(value);  // value may refer to the oldest element
             _write->~A();
             (_write + ct_capacity)->~A();
-        }
 
-        new (_write) A {value};
-        new (_write + ct_capacity) A {value};
+            new (_write) A {copy};
+            new (_write + ct_capacity) A {copy};
+        } else {
+            new (_write) A {value};
+            new (_write + ct_capacity) A {value};
+        }
 
         ++_write;
         _write -= ct_capacity * (_write == _buffer + ct_capacity);
-- 
2.43.0


From c495b3ab2cf9e78625da09dcbf6fb0f1d43b822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:17 +0000
Subject: [PATCH 15/40] fix: timsort skipped merging exactly the runs that
 needed it

---
 include/efp/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index afb6be4..7efddd0 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -156,7 +156,7 @@ void timsort_merge(Vector<A>& arr, size_t start, size_t mid, size_t end, const F
     size_t start2 = mid + 1;
 
     // If the direct merge is already sorted
-    if (!comp(arr[mid], arr[start2]))
+    if (!comp(arr[start2], arr[mid]))
         return;
 
     // Two posize_ters to masize_tain start of both arrays to merge
-- 
2.43.0


From 134531bff08e508bffb65d868677d73aa142b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 16/40] fix: max_elem of negative floating point elements
 returned the smallest positive number

---
 include/efp/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/numeric.hpp b/include/efp/numeric.hpp
index 26dc0bc..3b08601 100644
--- a/include/efp/numeric.hpp
+++ b/include/efp/numeric.hpp
@@ -113,7 +113,7 @@ namespace efp {
 
 template<typename As>
 constexpr Element<As> max_elem(const As& as) {
-    return foldl(max, NumericLimits<Element<As>>::min(), as);
+    return foldl(max, NumericLimits<Element<As>>::lowest(), as);
 }
 
 template<typename As>
-- 
2.43.0


From 2d9bbd15bb5e89d1769982fc0cce5ae23b249197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 17/40] fix: linear_regression_with_index overflowed int for
 long sequences

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index a5a4ad9..7ab8874 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -152,7 +152,7 @@ Tuple<R, R> linear_regression_with_index(const As& as) {
     };
 
     const auto ss_ia = sum(map_with_index(get_ss_ia, as));
-    const auto ss_ii = n * (n * n - 1) / 12.;
+    const auto ss_ii = n * (static_cast<double>(n) * n - 1) / 12.;
 
     const auto beta_1 = ss_ia / ss_ii;
     const auto beta_2 = as_mean - (beta_1 * mean_is);
-- 
2.43.0


From 6f9a9292fe5daeb43dc0e0e9e3aa58d1a004ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 18/40] fix: detrend converted the index to the element type

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index 7ab8874..a08a5b9 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -166,7 +166,7 @@ NAryReturn<R, As> detrend(const As& as) {
     const auto beta_1 = get<0>(betas);
     const auto beta_2 = get<1>(betas);
 
-    const auto detrend_elem = [&](const Element<As>& i, const Element<As>& x) {
+    const auto detrend_elem = [&](const int& i, const Element<As>& x) {
         return (R)x - (beta_1 * (R)i + beta_2);
     };
 
-- 
2.43.0


From 224666703ef16b50bf1136bc1c5d5c82caf18871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 19/40] fix: NonBlockingQ is_empty read the queue without its
 lock

---
 include/efp/concurrency.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 5f137bb..2205c71 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -128,6 +128,7 @@ public:
     }
 
     bool is_empty() {
+        std::lock_guard<std::mutex> lock(_m);
         return _q.empty();
     }
 
@@ -169,6 +170,7 @@ public:
     }
 
     bool is_empty() {
+        std::lock_guard<std::mutex> lock(_m);
         return _q.empty();
     }
 
-- 
2.43.0


From 7ec7ad21019e80b73414b184dd9fbcc16f785082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 20/40] fix: copying or moving a DoubleBuffer deleted its
 buffers twice

---
 include/efp/concurrency.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 2205c71..4e05c76 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -200,13 +200,13 @@ public:
     explicit DoubleBuffer()
         : _read_buffer(new Vcq<A, capacity> {}), _write_buffer(new Vcq<A, capacity> {}) {}
 
-    DoubleBuffer(const DoubleBuffer& other) = default;
+    DoubleBuffer(const DoubleBuffer& other) = delete;
 
-    DoubleBuffer& operator=(const DoubleBuffer& other) = default;
+    DoubleBuffer& operator=(const DoubleBuffer& other) = delete;
 
-    DoubleBuffer(DoubleBuffer&& other) noexcept = default;
+    DoubleBuffer(DoubleBuffer&& other) = delete;
 
-    DoubleBuffer& operator=(DoubleBuffer&& other) noexcept = default;
+    DoubleBuffer& operator=(DoubleBuffer&& other) = delete;
 
     ~DoubleBuffer() {
         delete _read_buffer;
-- 
2.43.0


From f4cd2a0e6183e5a70da0662d183034043c247d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 21/40] fix: DoubleBuffer dequeue and empty raced with
 swap_buffer

---
 include/efp/concurrency.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 4e05c76..e9a8c8a 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -226,11 +226,17 @@ public:
     }
 
     A dequeue() {
-        return _read_buffer->pop_front();
+        _spinlock.lock();
+        A a(_read_buffer->pop_front());
+        _spinlock.unlock();
+        return a;
     }
 
     bool empty() {
-        return _read_buffer->empty();
+        _spinlock.lock();
+        const bool is_empty = _read_buffer->empty();
+        _spinlock.unlock();
+        return is_empty;
     }
 
 private:
-- 
2.43.0


From 355dc3aba025c86689c91b3e0cd2cd52d697188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 22/40] fix: moving a File lost its mode and leaked the file it
 replaced

---
 include/efp/io.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 82daea1..97d05e0 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -38,12 +38,17 @@ public:
     File& operator=(const File&) = delete;
 
     File(File&& other) noexcept : _file(other._file) {
+        std::memcpy(_mode, other._mode, sizeof(_mode));
         other._file = nullptr;
     }
 
     File& operator=(File&& other) noexcept {
         if (this != &other) {
+            if (_file)
+                std::fclose(_file);
+
             _file = other._file;
+            std::memcpy(_mode, other._mode, sizeof(_mode));
             other._file = nullptr;
         }
         return *this;
-- 
2.43.0


From abc12e92d4a44ef18458d6f6c2c1d2b23809531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 23/40] fix: a failed File close left a dangling stream that
 was closed again

---
 include/efp/io.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 97d05e0..36a4098 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -150,9 +150,11 @@ public:
     }
 
     bool close() {
-        if (_file && std::fclose(_file) != EOF) {
+        if (_file) {
+            // The stream is gone even if fclose reports an error
+            FILE* file = _file;
             _file = nullptr;
-            return true;
+            return std::fclose(file) != EOF;
         }
 
         return false;
-- 
2.43.0


From 76cd9b7724c98767503d2f71cbe0ea4dd645494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 24/40] fix: File write in text mode dropped everything after a
 null character

---
 include/efp/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 36a4098..41ef3c5 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -133,7 +133,7 @@ public:
             size_t written = std::fwrite(data.data(), sizeof(char), data.size(), _file);
             return written == data.size();
         } else {
-            return std::fputs(data.c_str(), _file) != EOF;
+            return write(data.data(), data.size());
         }
     }
 
-- 
2.43.0


From 01cf7bab16e51af4c5181a1e6cee0f9ae6ba1eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 25/40] fix: File flush, seek and tell used a closed stream,
 tell truncated the offset

---
 include/efp/io.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 41ef3c5..ab848a6 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -138,15 +138,15 @@ public:
     }
 
     int flush() {
-        return std::fflush(_file);
+        return _file ? std::fflush(_file) : EOF;
     }
 
     bool seek(long offset) {
-        return std::fseek(_file, offset, SEEK_SET) == 0;
+        return _file && std::fseek(_file, offset, SEEK_SET) == 0;
     }
 
-    int tell() {
-        return std::ftell(_file);
+    long tell() {
+        return _file ? std::ftell(_file) : -1;
     }
 
     bool close() {
-- 
2.43.0


From b1a7d81c413fe1d92f056b1f9dac552a6c091108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 26/40] fix: _memcpy of nothing from a null pointer was
 undefined

---
 include/efp/cpp_core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/cpp_core.hpp b/include/efp/cpp_core.hpp
index 43d226b..8be116c 100644
--- a/include/efp/cpp_core.hpp
+++ b/include/efp/cpp_core.hpp
@@ -22,7 +22,8 @@
 namespace efp {
 // Use a function alias for clarity and avoid direct assignment to avoid potential confusion.
 inline void* _memcpy(void* dest, const void* src, size_t size) {
-    return std::memcpy(dest, src, size);
+    // memcpy does not accept null pointers even if there is nothing to copy
+    return size ? std::memcpy(dest, src, size) : dest;
 }
 }  // namespace efp
 
-- 
2.43.0


From ce2307cad0e1d8b9e4e8f6f1b7eb48598b4949d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 27/40] fix: String(size, char) had no room for the null
 character

---
 include/efp/string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index b566f49..20d467a 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -44,8 +44,9 @@ public:
     }
 
     Vector(size_t size, Char c) {
-        Base::_capacity = size;
-        Base::_data = static_cast<Char*>(::operator new[](Base::_capacity * sizeof(Char)));
+        // Always allocate one extra space for the null character
+        Base::_capacity = size + 1;
+        Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
         Base::_size = size;
         for (size_t i = 0; i < size; ++i) {
             Base::_data[i] = c;
-- 
2.43.0


From 1b451d62af398c300bfd646dee0eee2797b8afed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 28/40] fix: c_str of a String without storage wrote through a
 null pointer

---
 include/efp/string.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 20d467a..321d1df 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -247,6 +247,12 @@ public:
     }
 
     const Char* c_str() const {
+        static const Char empty = Char();
+
+        if (Base::_data == nullptr) {
+            return &empty;
+        }
+
         Base::_data[Base::_size] = '\0';
         return Base::_data;
     }
-- 
2.43.0


From fe53cca38cdb5e36f388aac26bb58f3a92624296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 29/40] fix: String insert left no room for the null character
 and read freed storage

---
 include/efp/string.hpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 321d1df..19d6862 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -160,20 +160,7 @@ public:
             throw RuntimeError("Index out of range");
         }
 
-        const size_t len = Traits::length(c_str);
-        Base::reserve(Base::_size + len);
-
-        for (size_t i = Base::_size; i > pos; --i) {
-            Base::_data[i + len - 1] = Base::_data[i - 1];
-        }
-
-        for (size_t i = 0; i < len; ++i) {
-            Base::_data[pos + i] = c_str[i];
-        }
-
-        Base::_size += len;
-
-        return *this;
+        return insert(pos, c_str, Traits::length(c_str));
     }
 
     Vector& insert(size_t pos, const Char* c_str, size_t n) {
@@ -181,6 +168,9 @@ public:
             throw RuntimeError("Index out of range");
         }
 
+        // c_str may refer to this string
+        const Vector copy(c_str, n);
+
         // Always reserve one extra space for the null character
         Base::reserve(Base::_size + n + 1);
 
@@ -189,7 +179,7 @@ public:
         }
 
         for (size_t i = 0; i < n; ++i) {
-            Base::_data[pos + i] = c_str[i];
+            Base::_data[pos + i] = copy[i];
         }
 
         Base::_size += n;
-- 
2.43.0


From 176c1b0d782cca63d3e88e5e2cbc83f63e377a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 30/40] fix: String compare ignored the length of the other
 string and read past its end

---
 include/efp/string.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 19d6862..dc90889 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -221,7 +221,7 @@ public:
     // todo find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of
 
     int compare(const Vector& other) const {
-        return Traits::compare(Base::_data, other.data(), Base::_size);
+        return compare(0, Base::_size, other);
     }
 
     int compare(size_t pos, size_t len, const Vector& other) const {
@@ -233,7 +233,15 @@ public:
             len = Base::_size - pos;
         }
 
-        return Traits::compare(Base::_data + pos, other.data(), len);
+        const size_t other_len = other.size();
+        const int res =
+            Traits::compare(Base::_data + pos, other.data(), len < other_len ? len : other_len);
+
+        if (res != 0) {
+            return res;
+        }
+
+        return len < other_len ? -1 : (len > other_len ? 1 : 0);
     }
 
     const Char* c_str() const {
-- 
2.43.0


From 7ac43706478471641c5f36a931796596f1a6c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 31/40] fix: an empty String did not equal an empty C string

---
 include/efp/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index dc90889..ce3b82e 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -91,7 +91,7 @@ public:
             return true;
         }
 
-        if (Base::_data == nullptr || c_str == nullptr) {
+        if (c_str == nullptr) {
             return false;
         }
 
@@ -315,7 +315,7 @@ public:
             return true;
         }
 
-        if (Base::_data == nullptr || c_str == nullptr) {
+        if (c_str == nullptr) {
             return false;
         }
 
-- 
2.43.0


From 8bf8243155da0253812741b394661b36c6fb4a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:04 +0000
Subject: [PATCH 32/40] fix: appending a String to itself never ended or read
 freed storage

---
 include/efp/string.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index ce3b82e..6428e1d 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -120,7 +120,10 @@ public:
     }
 
     Vector& operator+=(const Vector& other) {
-        for (size_t i = 0; i < other.size(); ++i) {
+        // other may be this string
+        const size_t len = other.size();
+
+        for (size_t i = 0; i < len; ++i) {
             Base::push_back(other[i]);
         }
 
@@ -128,10 +131,12 @@ public:
     }
 
     Vector& append(const Char* c_str) {
-        const size_t len = Traits::length(c_str);
+        // c_str may refer to this string
+        const Vector copy(c_str);
+        const size_t len = copy.size();
 
         for (size_t i = 0; i < len; ++i) {
-            Base::push_back(c_str[i]);
+            Base::push_back(copy[i]);
         }
 
         return *this;
-- 
2.43.0


From c7e89925972658e31aeb3d5f7fae90a4861f5b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:04 +0000
Subject: [PATCH 33/40] fix: the iterator constructor of String did not compile

---
 include/efp/string.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 6428e1d..b4b7b0e 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -62,22 +62,23 @@ public:
 
     // Not using iterator
     template<typename InputIt>
-    Vector(InputIt first, InputIt last, const Allocator& alloc = Allocator())
-        : Base::allocator_(alloc), Base::size_(0), Base::capacity_(0) {
+    Vector(InputIt first, InputIt last, const Allocator& alloc = Allocator()) {
+        Base::_allocator = alloc;
+
         // First pass: Count the number of elements to determine size
         for (InputIt it = first; it != last; ++it) {
-            ++Base::size_;
+            ++Base::_size;
         }
-        Base::capacity_ = Base::size_ + 1;
+        Base::_capacity = Base::_size + 1;
 
         // Allocate memory for the elements
-        // Base::data_ = Base::allocator_.allocate(Base::capacity_);
-        Base::data_ = AllocatorTraits<Allocator>::allocate(Base::allocator_, Base::capacity_);
+        // Base::_data = Base::_allocator.allocate(Base::_capacity);
+        Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
 
         // Second pass: Copy-construct elements from the range
         size_t i = 0;
         for (InputIt it = first; it != last; ++it, ++i) {
-            Base::allocator_.construct(Base::data_ + i, *it);
+            AllocatorTraits<Allocator>::construct(Base::_allocator, Base::_data + i, *it);
         }
     }
 
-- 
2.43.0


From 7069d012d6fe9f67c9540b5a4aef72eea3fd2a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:04 +0000
Subject: [PATCH 34/40] fix: a StringView of a string compared unequal to the
 same view

---
 include/efp/string.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index b4b7b0e..cad69b3 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -302,12 +302,14 @@ public:
 
     VectorView(const Char* c_str) {
         Base::_size = Traits::length(c_str);
+        Base::_capacity = Base::_size;
         Base::_data = c_str;
     }
 
     // todo basic_string_view(const efp::BasicString<Char>& s) noexcept
     VectorView(const Vector<Char>& s) noexcept {
         Base::_size = s.size();
+        Base::_capacity = Base::_size;
         Base::_data = s.data();
     }
 
-- 
2.43.0


From 556d6a9dc44483701bc8add8c76cde0adb3ddc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:04 +0000
Subject: [PATCH 35/40] fix: a VectorView of another view left its capacity
 uninitialised

---
 include/efp/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index ac03c86..74e70b0 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1352,12 +1352,12 @@ namespace detail {
         // Constructor from ArrayView
         template<size_t ct_size_>
         VectorViewBase(const ArrayView<Element, ct_size_>& as)
-            : _data(as.data()), _size(length(as)) {}
+            : _data(as.data()), _size(length(as)), _capacity(length(as)) {}
 
         // Constructor from ArrVecView
         template<size_t ct_cap_>
         VectorViewBase(const ArrVecView<Element, ct_cap_>& as)
-            : _data(as.data()), _size(length(as)) {}
+            : _data(as.data()), _size(length(as)), _capacity(length(as)) {}
 
         const Element& operator[](size_t index) {
             return _data[index];
-- 
2.43.0


From 5af90d910177fbc80b4d372bfbe77e83088f3239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:39 +0000
Subject: [PATCH 36/40] fix: slice returned views beyond the end of its
 argument

---
 include/efp/prelude.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 5b5881c..0dd68a7 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -866,12 +866,20 @@ using SliceReturn = TakeReturn<
 // todo Optimization
 template<typename S, typename E, typename As>
 auto slice(S start, E end, const As& as) -> SliceReturn<S, E, As, true> {
-    return SliceReturn<S, E, As, true>(data(as) + start, end - start);
+    const size_t as_len = length(as);
+    const size_t bound_start = min(static_cast<size_t>(start), as_len);
+    const size_t bound_end = max(min(static_cast<size_t>(end), as_len), bound_start);
+
+    return SliceReturn<S, E, As, true>(data(as) + bound_start, bound_end - bound_start);
 }
 
 template<typename S, typename E, typename As>
 auto slice(S start, E end, As& as) -> SliceReturn<S, E, As, false> {
-    return SliceReturn<S, E, As, false>(data(as) + start, end - start);
+    const size_t as_len = length(as);
+    const size_t bound_start = min(static_cast<size_t>(start), as_len);
+    const size_t bound_end = max(min(static_cast<size_t>(end), as_len), bound_start);
+
+    return SliceReturn<S, E, As, false>(data(as) + bound_start, bound_end - bound_start);
 }
 
 // take_while
-- 
2.43.0


From 5c8856e565edc721c2e1a6c759b7c5a9b4d88856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:08 +0000
Subject: [PATCH 37/40] fix: take_while and drop_while could not be used on
 owning sequences

They take a const sequence, so take and drop give views of const elements,
which do not convert to the declared view of mutable elements.
---
 include/efp/prelude.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 0dd68a7..8f469a5 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -887,8 +887,8 @@ auto slice(S start, E end, As& as) -> SliceReturn<S, E, As, false> {
 template<typename As>
 using TakeWhileReturn = Conditional<
     IsStaticCapacity<As>::value,
-    ArrVecView<Element<As>, CtCapacity<As>::value>,
-    VectorView<Element<As>>>;
+    ArrVecView<const Element<As>, CtCapacity<As>::value>,
+    VectorView<const Element<As>>>;
 
 template<typename As, typename F = bool (*)(const Element<As>&)>
 auto take_while(const F& f, const As& as) -> TakeWhileReturn<As> {
@@ -907,8 +907,8 @@ auto take_while(const F& f, const As& as) -> TakeWhileReturn<As> {
 template<typename As>
 using DropWhileReturn = Conditional<
     IsStaticCapacity<As>::value,
-    ArrVecView<Element<As>, CtCapacity<As>::value>,
-    VectorView<Element<As>>>;
+    ArrVecView<const Element<As>, CtCapacity<As>::value>,
+    VectorView<const Element<As>>>;
 
 template<typename As, typename F = bool (*)(const Element<As>&)>
 auto drop_while(const F& f, const As& as) -> DropWhileReturn<As> {
-- 
2.43.0


From 5c261584e8791f574f82de824468cc7c792a2346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:35 +0000
Subject: [PATCH 38/40] fix: append and cartesian_map computed result lengths
 in int

The literal start values made _sum and _product accumulate in int, so a
total length of 2^31 or more was truncated.
---
 include/efp/meta.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 6e531f7..efc0919 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -810,13 +810,13 @@ constexpr A _minimum(const A (&as)[n]) {
 // _sum :: [A] -> A
 template<typename A, size_t n>
 constexpr A _sum(const A (&as)[n]) {
-    return _foldl(op_add<A>, 0, as);
+    return _foldl(op_add<A>, static_cast<A>(0), as);
 }
 
 // _product :: [A] -> A
 template<typename A, size_t n>
 constexpr A _product(const A (&as)[n]) {
-    return _foldl(op_mul<A>, 1, as);
+    return _foldl(op_mul<A>, static_cast<A>(1), as);
 }
 
 // All
-- 
2.43.0


From 8cea679b18d85599217a3ef73160c0d561ae5340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:04 +0000
Subject: [PATCH 39/40] fix: Maybe's fmap/ap/bind/>>= members could not be
 called on a const Maybe, nor chained

The const was part of the returned type instead of qualifying the member,
so (m >>= f) >>= g did not compile.
---
 include/efp/maybe.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/efp/maybe.hpp b/include/efp/maybe.hpp
index d6d04a5..1977792 100644
--- a/include/efp/maybe.hpp
+++ b/include/efp/maybe.hpp
@@ -59,7 +59,7 @@ public:
     }
 
     template<typename F>
-    auto fmap(const F& f) -> Enum<Nothing, InvokeResult<F, A>> const {
+    auto fmap(const F& f) const -> Enum<Nothing, InvokeResult<F, A>> {
         if (has_value())
             return f(value());
         else
@@ -67,7 +67,7 @@ public:
     }
 
     template<typename F>
-    auto ap(const Enum<Nothing, F>& mf) -> Enum<Nothing, InvokeResult<F, A>> const {
+    auto ap(const Enum<Nothing, F>& mf) const -> Enum<Nothing, InvokeResult<F, A>> {
         if (has_value() && mf.has_value())
             return mf.value()(value());
         else
@@ -75,8 +75,8 @@ public:
     }
 
     template<typename F>
-    auto bind(const F& f)
-        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> const {
+    auto bind(const F& f) const
+        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> {
         if (has_value())
             return f(value());
         else
@@ -84,8 +84,8 @@ public:
     }
 
     template<typename F>
-    auto operator>>=(const F& f)
-        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> const {
+    auto operator>>=(const F& f) const
+        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> {
         if (has_value())
             return f(value());
         else
-- 
2.43.0


From 1011479e93bebc9fae0f2bb4d094c528bff000be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:37 +0000
Subject: [PATCH 40/40] fix: merge_sort_by reversed the order of equal elements

---
 include/efp/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index 7efddd0..3522ea3 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -24,7 +24,7 @@ void merge(Vector<A>& arr, size_t left, size_t middle, size_t right, const F& co
 
     size_t i = 0, j = 0, k = left;
     while (i < n1 && j < n2) {
-        if (comp(lefts[i], rights[j])) {
+        if (!comp(rights[j], lefts[i])) {
             arr[k] = lefts[i++];
         } else {
             arr[k] = rights[j++];
-- 
2.43.0

