From 4d5ea6eafb59ef836efc83af24e648042cde1225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:56 +0000
Subject: [PATCH 01/40] fix: release VariableLengthArray storage when a
 constructor throws

The buffer was only released by the destructor of the derived class, which
does not run when copying an element throws out of a constructor.
Release it from the base class destructor instead.
---
 include/cetl/variable_length_array.hpp | 30 ++++++++++----------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 5f8f917..ade4d9c 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -842,7 +842,15 @@ protected:
         rhs.data_     = nullptr;
     }
 
-    ~VariableLengthArrayBase() = default;
+    ~VariableLengthArrayBase()
+    {
+        if (nullptr != data_)
+        {
+            // While deallocation is null-safe, we don't know if the allocator
+            // was moved and is now in an invalid state.
+            fast_deallocate(data_, size_, capacity_, alloc_);
+        }
+    }
 
     // +----------------------------------------------------------------------+
     // | DATA MEMBERS
@@ -1050,15 +1058,7 @@ public:
         return *this;
     }
 
-    ~VariableLengthArray()
-    {
-        if (nullptr != data_)
-        {
-            // While deallocation is null-safe, we don't know if the allocator
-            // was moved and is now in an invalid state.
-            Base::fast_deallocate(data_, size_, capacity_, alloc_);
-        }
-    }
+    ~VariableLengthArray() = default;
 
     // +----------------------------------------------------------------------+
     // | COMPARATORS
@@ -1916,15 +1916,7 @@ public:
         return *this;
     }
 
-    ~VariableLengthArray()
-    {
-        if (nullptr != data_)
-        {
-            // While deallocation is null-safe, we don't know if the allocator
-            // was move and is now in an invalid state.
-            Base::fast_deallocate(data_, size_, capacity_, alloc_);
-        }
-    }
+    ~VariableLengthArray() = default;
 
     // +----------------------------------------------------------------------+
     // | COMPARATORS
-- 
2.43.0


From f82f6b6369e94d5869ad97d53998de311e16bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:42 +0000
Subject: [PATCH 02/40] fix: keep VariableLengthArray exception safe while
 constructing elements

Elements already constructed by reserve(), resize(), shrink_to_fit(), copy
assignment and the constructors were never destroyed when a later element
threw, and the new block of memory obtained by reserve() and shrink_to_fit()
was lost.
---
 include/cetl/variable_length_array.hpp | 98 ++++++++++++++++++++++----
 1 file changed, 86 insertions(+), 12 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index ade4d9c..936eab1 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -252,6 +252,69 @@ protected:
         alloc.deallocate(src, src_capacity_count);
     }
 
+    ///
+    /// Destroys the elements constructed so far, unless released, when leaving the scope because of an exception.
+    ///
+    struct ConstructedRange final
+    {
+        value_type* first;
+        size_type   count;
+
+        constexpr explicit ConstructedRange(value_type* const range_first) noexcept
+            : first(range_first)
+            , count(0)
+        {
+        }
+        ~ConstructedRange()
+        {
+            fast_destroy(first, count);
+        }
+        ConstructedRange(const ConstructedRange&)            = delete;
+        ConstructedRange& operator=(const ConstructedRange&) = delete;
+
+        size_type release() noexcept
+        {
+            const size_type released = count;
+            count                    = 0;
+            return released;
+        }
+    };
+
+    ///
+    /// Deallocates a block of memory, unless released, when leaving the scope because of an exception.
+    ///
+    struct AllocatedBlock final
+    {
+        value_type*     data;
+        size_type       capacity;
+        allocator_type& alloc;
+
+        constexpr AllocatedBlock(value_type* const     block_data,
+                                 const size_type block_capacity,
+                                 allocator_type& block_alloc) noexcept
+            : data(block_data)
+            , capacity(block_capacity)
+            , alloc(block_alloc)
+        {
+        }
+        ~AllocatedBlock()
+        {
+            if (nullptr != data)
+            {
+                alloc.deallocate(data, capacity);
+            }
+        }
+        AllocatedBlock(const AllocatedBlock&)            = delete;
+        AllocatedBlock& operator=(const AllocatedBlock&) = delete;
+
+        value_type* release() noexcept
+        {
+            value_type* const released = data;
+            data                       = nullptr;
+            return released;
+        }
+    };
+
     // +----------------------------------------------------------------------+
     // | COPY ASSIGNMENT
     // +----------------------------------------------------------------------+
@@ -334,14 +397,15 @@ protected:
                                                      std::declval<std::add_lvalue_reference_t<
                                                          decltype(std::declval<const InputIt>()[0])>>())))
     {
-        const size_type max_copy_size = std::min(dst_capacity_count, src_len_count);
-        for (size_type i = 0; i < max_copy_size; ++i)
+        const size_type  max_copy_size = std::min(dst_capacity_count, src_len_count);
+        ConstructedRange range(dst);
+        for (; range.count < max_copy_size; ++range.count)
         {
             std::allocator_traits<allocator_type>::construct(alloc,
-                                                             &dst[static_cast<difference_type>(i)],
-                                                             src[static_cast<difference_type>(i)]);
+                                                             &dst[static_cast<difference_type>(range.count)],
+                                                             src[static_cast<difference_type>(range.count)]);
         }
-        return max_copy_size;
+        return range.release();
     }
 
     // +----------------------------------------------------------------------+
@@ -372,12 +436,15 @@ protected:
         typename std::enable_if_t<
             !is_array_of_type_trivially_copyable<std::add_pointer_t<value_type>, InputIt>::value>* = nullptr)
     {
-        const size_type max_copy_size = std::min(dst_capacity_count, src_len_count);
-        for (size_type i = 0; i < max_copy_size; ++i)
+        const size_type  max_copy_size = std::min(dst_capacity_count, src_len_count);
+        ConstructedRange range(dst);
+        for (; range.count < max_copy_size; ++range.count)
         {
-            std::allocator_traits<allocator_type>::construct(alloc, &dst[i], std::move_if_noexcept(src[i]));
+            std::allocator_traits<allocator_type>::construct(alloc,
+                                                             &dst[range.count],
+                                                             std::move_if_noexcept(src[range.count]));
         }
-        return max_copy_size;
+        return range.release();
     }
 
     // +----------------------------------------------------------------------+
@@ -637,9 +704,10 @@ protected:
             new_data = std::allocator_traits<allocator_type>::allocate(alloc_, no_shrink_capacity);
             if (nullptr != new_data)
             {
+                AllocatedBlock new_block(new_data, no_shrink_capacity, alloc_);
                 fast_forward_construct(new_data, no_shrink_capacity, data_, size_, alloc_);
                 fast_deallocate(data_, size_, capacity_, alloc_);
-                data_     = new_data;
+                data_     = new_block.release();
                 capacity_ = no_shrink_capacity;
             }
         }
@@ -666,10 +734,14 @@ protected:
                 }
 #endif
             }
-            for (std::size_t i = size_; i < new_size; ++i)
+            ConstructedRange range(&data_[size_]);
+            for (; range.count < new_size - size_; ++range.count)
             {
-                std::allocator_traits<allocator_type>::construct(alloc_, &data_[i], std::forward<Args>(args)...);
+                std::allocator_traits<allocator_type>::construct(alloc_,
+                                                                 &data_[size_ + range.count],
+                                                                 std::forward<Args>(args)...);
             }
+            (void) range.release();
         }
         else
         {
@@ -720,8 +792,10 @@ protected:
         {
             if (minimized_data != data_)
             {
+                AllocatedBlock new_block(minimized_data, size_, alloc_);
                 fast_forward_construct(minimized_data, size_, data_, size_, alloc_);
                 fast_deallocate(data_, size_, capacity_, alloc_);
+                (void) new_block.release();
             }  // else the allocator was able to simply shrink the reserved area for the same memory pointer.
             data_     = minimized_data;
             capacity_ = size_;
-- 
2.43.0


From d615eb1339178d6e37bfeb010e24a17a63ff08ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:18 +0000
Subject: [PATCH 03/40] fix: move VariableLengthArray correctly to a different
 allocator

The allocator-extended move constructor allocated room for size() elements
but recorded the capacity of the source, dropped the elements and the memory
of the source, dereferenced a failed allocation and, for allocators that
propagate on move assignment, took over memory of an unequal allocator.
It is also no longer noexcept when it may have to allocate.
---
 include/cetl/variable_length_array.hpp | 46 ++++++++++++++++----------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 936eab1..0d68867 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -865,7 +865,7 @@ protected:
     constexpr VariableLengthArrayBase(
         VariableLengthArrayBase&& rhs,
         const UAlloc&             rhs_alloc,
-        typename std::enable_if_t<is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
+        typename std::enable_if_t<std::allocator_traits<UAlloc>::is_always_equal::value>* = nullptr) noexcept
         : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
         , data_(std::move(rhs.data_))
         , capacity_(rhs.capacity_)
@@ -883,7 +883,7 @@ protected:
     constexpr VariableLengthArrayBase(
         VariableLengthArrayBase&& rhs,
         const UAlloc&             rhs_alloc,
-        typename std::enable_if_t<!is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
+        typename std::enable_if_t<!std::allocator_traits<UAlloc>::is_always_equal::value>* = nullptr)
         : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
         , data_{nullptr}
         , capacity_(0)
@@ -895,25 +895,29 @@ protected:
         if (alloc_ == rhs.alloc_)
         {
             // The allocators may not always be equal, but they are this time.
-            data_     = std::move(rhs.data_);
-            capacity_ = rhs.capacity_;
-            size_     = rhs.size_;
+            data_         = std::move(rhs.data_);
+            capacity_     = rhs.capacity_;
+            size_         = rhs.size_;
+            rhs.size_     = 0;
+            rhs.capacity_ = 0;
+            rhs.data_     = nullptr;
         }
-        else
+        else if (rhs.size_ > 0)
         {
             // The allocators are not equal, so we need to move the data over
             // manually.
-            if (rhs.size_ > 0)
+            AllocatedBlock new_block(std::allocator_traits<allocator_type>::allocate(alloc_, rhs.size_),
+                                     rhs.size_,
+                                     alloc_);
+            if (nullptr != new_block.data)
             {
-                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, rhs.size_);
-                fast_forward_construct(data_, rhs.size_, rhs.data_, rhs.size_, alloc_);
+                size_     = fast_forward_construct(new_block.data, rhs.size_, rhs.data_, rhs.size_, alloc_);
+                data_     = new_block.release();
+                capacity_ = rhs.size_;
+                fast_destroy(rhs.data_, rhs.size_);
+                rhs.size_ = 0;
             }
-            capacity_ = rhs.capacity_;
-            size_     = rhs.size_;
         }
-        rhs.size_     = 0;
-        rhs.capacity_ = 0;
-        rhs.data_     = nullptr;
     }
 
     ~VariableLengthArrayBase()
@@ -1114,7 +1118,8 @@ public:
         return *this;
     }
 
-    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept
+    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept(
+        std::allocator_traits<allocator_type>::is_always_equal::value)
         : Base(std::move(rhs), alloc)
     {
     }
@@ -1974,11 +1979,16 @@ public:
         rhs.last_byte_bit_fill_ = 0;
     }
 
-    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept
+    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept(
+        std::allocator_traits<allocator_type>::is_always_equal::value)
         : Base(std::move(rhs), alloc)
-        , last_byte_bit_fill_{rhs.last_byte_bit_fill_}
+        , last_byte_bit_fill_{0}
     {
-        rhs.last_byte_bit_fill_ = 0;
+        if (size_ > 0)
+        {
+            last_byte_bit_fill_     = rhs.last_byte_bit_fill_;
+            rhs.last_byte_bit_fill_ = 0;
+        }
     }
 
     VariableLengthArray& operator=(VariableLengthArray&& rhs) noexcept(
-- 
2.43.0


From 9a688361cb900c142a542c370d276cfe7f1bec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:18 +0000
Subject: [PATCH 04/40] fix: compare all bytes of two VariableLengthArray<bool>

The next to last byte was left out of the comparison.
---
 include/cetl/variable_length_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 0d68867..1d1b711 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -2015,7 +2015,7 @@ public:
         {
             return false;
         }
-        if (size_ > 1 && !std::equal(data_, data_ + size_ - 2, rhs.data_, rhs.data_ + rhs.size_ - 2))
+        if (size_ > 1 && !std::equal(data_, data_ + size_ - 1, rhs.data_, rhs.data_ + rhs.size_ - 1))
         {
             return false;
         }
-- 
2.43.0


From 871d972dbd696daf9ba2866f975d571d1287fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:42 +0000
Subject: [PATCH 05/40] fix: keep the bit count of VariableLengthArray<bool> in
 step with its bytes

Move assignment left the moved-from array with a stale count of bits in its
last byte, and assignments or copies that failed to allocate left the array
empty but with a non-zero count.
---
 include/cetl/variable_length_array.hpp | 31 +++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 1d1b711..6691b18 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -1954,10 +1954,14 @@ public:
     // +----------------------------------------------------------------------+
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
         : Base(rhs, alloc)
-        , last_byte_bit_fill_{rhs.last_byte_bit_fill_}
+        , last_byte_bit_fill_{0}
     {
         reserve_bits(rhs.size(), rhs.max_size());
         size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
+        if (size_ > 0)
+        {
+            last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
+        }
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
@@ -1967,8 +1971,16 @@ public:
 
     VariableLengthArray& operator=(const VariableLengthArray& rhs)
     {
-        Base::copy_assign_from(rhs, rhs.max_size());
-        last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
+        if (this != &rhs)
+        {
+            // Stays zero if the base class fails to allocate and is left empty.
+            last_byte_bit_fill_ = 0;
+            Base::copy_assign_from(rhs, rhs.max_size());
+            if (size_ > 0)
+            {
+                last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
+            }
+        }
         return *this;
     }
 
@@ -1995,8 +2007,17 @@ public:
         std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value ||
         std::allocator_traits<allocator_type>::is_always_equal::value)
     {
-        last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
-        Base::template move_assign_from<allocator_type>(std::move(rhs), rhs.max_size());
+        if (this != &rhs)
+        {
+            // Stays zero if the base class fails to allocate and is left empty.
+            last_byte_bit_fill_ = 0;
+            Base::template move_assign_from<allocator_type>(std::move(rhs), rhs.max_size());
+            if (size_ > 0)
+            {
+                last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
+            }
+            rhs.last_byte_bit_fill_ = 0;
+        }
         return *this;
     }
 
-- 
2.43.0


From a692e5d2b538d86883a19d81d057925d60b57d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:03 +0000
Subject: [PATCH 06/40] fix: do not let VariableLengthArray<bool> grow beyond
 max_size()

The maximum number of bits was passed to the base class as a number of bytes.
---
 include/cetl/variable_length_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 6691b18..bfd4b50 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -2483,7 +2483,7 @@ private:
             return size_bits() < max_size();
         }
 
-        return Base::grow(max_size());
+        return (size_bits() < max_size()) && Base::grow(bits2bytes(max_size()));
     }
 
     constexpr bool emplace_back_impl(bool value)
-- 
2.43.0


From 1851821b4aa4b79c39ba5e3ad08bbe23c348f403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:44 +0000
Subject: [PATCH 07/40] fix: let exceptions of element assignment out of
 VariableLengthArray

The noexcept specification asked whether evaluating a constant throws, so
copying an array terminated the program when assigning an element threw.
---
 include/cetl/variable_length_array.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index bfd4b50..d4ce1ae 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -324,7 +324,7 @@ protected:
     ///
     template <typename InputIt>
     static constexpr size_type fast_copy_assign(value_type* dst, size_type dst_capacity_count, InputIt src) noexcept(
-        noexcept(std::is_nothrow_assignable<value_type, std::remove_pointer_t<InputIt>>::value))
+        std::is_nothrow_assignable<std::add_lvalue_reference_t<value_type>, const InputIt&>::value)
     {
         if (nullptr == dst)
         {
@@ -343,8 +343,8 @@ protected:
         value_type* dst,
         size_type   dst_capacity_count,
         InputIt     src,
-        size_type   src_len_count) noexcept(noexcept(std::is_nothrow_assignable<value_type,
-                                                                              std::remove_pointer_t<InputIt>>::value))
+        size_type   src_len_count) noexcept(std::is_nothrow_assignable<std::add_lvalue_reference_t<value_type>,
+                                                                     decltype(*std::declval<InputIt>())>::value)
     {
         if (nullptr == dst || nullptr == src)
         {
-- 
2.43.0


From 734a80743f1cf48761bd59fd236f2502d012934b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:23 +0000
Subject: [PATCH 08/40] fix: respect the adopted max_size() when assigning a
 VariableLengthArray

Copy assignment kept a capacity larger than the maximum size it adopted, and
move assignment between unequal allocators did not adopt the maximum size at
all, so that size() could exceed max_size().
---
 include/cetl/variable_length_array.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index d4ce1ae..95809a9 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -492,7 +492,7 @@ protected:
         max_size_max_ = rhs.max_size_max_;
         if ((std::allocator_traits<allocator_type>::is_always_equal::value || alloc_ == rhs.alloc_ ||
              !std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) &&
-            rhs.size_ <= capacity_)
+            rhs.size_ <= capacity_ && capacity_ <= rhs_max_size)
         {
             // First off, we're here because the incoming data will fit within our existing capacity.
 
@@ -522,7 +522,8 @@ protected:
         }
         else
         {
-            // If the incoming data doesn't fit in our capacity we have to resize. It doesn't make any sense, until
+            // If the incoming data doesn't fit in our capacity, or our capacity doesn't fit in the maximum size we just
+            // adopted, we have to resize. It doesn't make any sense, until
             // we support realloc here (TODO: support realloc here), to move the existing data with the resize since
             // we're going to be copying over it right away. That means the most efficient procedure at this point
             // is to simply discard everything on the lhs, reserve enough memory for the rhs, and copy everything
@@ -607,7 +608,8 @@ protected:
         }
         else
         {
-            if (rhs.size_ <= capacity_)
+            max_size_max_ = rhs.max_size_max_;
+            if (rhs.size_ <= capacity_ && capacity_ <= rhs_max_size)
             {
                 // We're here because the incoming data will fit within our existing capacity and because we can't
                 // just move the memory from the rhs allocator since that allocator is neither equal to our own nor are
-- 
2.43.0


From 4c75710b435b48e78d45f3aa0260cb23805d4195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:45 +0000
Subject: [PATCH 09/40] fix: check that VariableLengthArray got the memory
 resize() asked for

resize() wrote past the end of the storage when the allocator returned a null
pointer: always for an array of bool without exceptions, and for any element
type with exceptions enabled.
---
 include/cetl/variable_length_array.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 95809a9..9dd3d4b 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -729,12 +729,14 @@ protected:
             if (new_size > capacity_)
             {
                 reserve(new_size, max_size);
-#if !defined(__cpp_exceptions)
-                if (capacity_ != new_size)
+                if (capacity_ < new_size)
                 {
+#if defined(__cpp_exceptions)
+                    throw std::bad_alloc();
+#else
                     new_size = capacity_;
-                }
 #endif
+                }
             }
             ConstructedRange range(&data_[size_]);
             for (; range.count < new_size - size_; ++range.count)
@@ -2422,6 +2424,16 @@ public:
             if (byte_sized > capacity_)
             {
                 reserve_bits(clamped_count, max_size());
+                if (byte_sized > capacity_)
+                {
+#if defined(__cpp_exceptions)
+                    throw std::bad_alloc();
+#else
+                    // Could not get enough memory; use what we have.
+                    resize(capacity_bits(), value);
+                    return;
+#endif
+                }
             }
             if (byte_sized == 0)
             {
-- 
2.43.0


From 2160eb1557ad716ed8af9534f7c5d37a1a4a981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:40 +0000
Subject: [PATCH 10/40] fix: allow a VariableLengthArray element as the value
 to insert

push_back(), resize() and assign() read the value after the element it refers
to had been moved to another location or destroyed.
---
 include/cetl/variable_length_array.hpp | 28 ++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 9dd3d4b..75938ef 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -1487,12 +1487,18 @@ public:
     ///
     constexpr void push_back(const value_type& value)
     {
-        if (!ensure_size_plus_one())
+        if (size_ < capacity_)
         {
+            push_back_impl(value);
             return;
         }
 
-        push_back_impl(value);
+        // The value may be one of our own elements so take a copy before these are moved to another location.
+        value_type copy(value);
+        if (ensure_size_plus_one())
+        {
+            push_back_impl(std::move_if_noexcept(copy));
+        }
     }
 
     ///
@@ -1567,7 +1573,15 @@ public:
     /// @throw std::bad_alloc if the container cannot obtain enough memory to size up to `count`.
     constexpr void resize(size_type count, const value_type& value)
     {
-        Base::resize(count, max_size(), value);
+        if (count <= capacity_)
+        {
+            Base::resize(count, max_size(), value);
+            return;
+        }
+
+        // The value may be one of our own elements so take a copy before these are moved to another location.
+        const value_type copy(value);
+        Base::resize(count, max_size(), copy);
     }
 
     /// Set count elements to the given value. Grow the array if needed else
@@ -1578,10 +1592,12 @@ public:
     /// @throw std::bad_alloc if the container cannot obtain enough memory to size up to `count`.
     constexpr void assign(size_type count, const value_type& value)
     {
-        const size_type size_before = size_;
-        resize(count, value);
+        // The value may be one of our own elements so take a copy before these are changed.
+        const value_type copy(value);
+        const size_type  size_before = size_;
+        Base::resize(count, max_size(), copy);
         const size_type back_fill_count = (size_ > size_before) ? size_before : size_;
-        Base::fast_copy_assign(data_, back_fill_count, value);
+        Base::fast_copy_assign(data_, back_fill_count, copy);
     }
 
 private:
-- 
2.43.0


From ce6075a1b9fadab74e5d5604940c52f3c462af4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:09 +0000
Subject: [PATCH 11/40] fix: report at most max_size() as the capacity of
 VariableLengthArray<bool>

The storage consists of whole bytes, so capacity() could exceed max_size() by
up to seven bits. After assigning from an array with a smaller maximum it could
exceed it by more. The documentation says it never does.
---
 include/cetl/variable_length_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 75938ef..5fc0e5e 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -2276,7 +2276,8 @@ public:
     ///
     constexpr size_type capacity() const noexcept
     {
-        return capacity_bits();
+        // The storage is made of whole bytes, so it may have room for a few bits more than allowed.
+        return std::min(capacity_bits(), max_size());
     }
 
     ///
-- 
2.43.0


From 90a6ed3c8a1d3ab2dc76d270f7da6c8594e6df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:22 +0000
Subject: [PATCH 12/40] fix: let exceptions out of copies and moves of optional

The defaulted copy and move operations of the optional bases were marked
noexcept although they call operations of the contained type that may throw,
so an exception from the contained type ended the program.
---
 include/cetl/pf17/optional.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 19b2e94..d599df9 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -192,8 +192,8 @@ template <typename T>
 struct base_move_construction<T, false> : base_copy_construction<T>
 {
     using base_copy_construction<T>::base_copy_construction;
-    constexpr base_move_construction() noexcept                              = default;
-    constexpr base_move_construction(const base_move_construction&) noexcept = default;
+    constexpr base_move_construction() noexcept                     = default;
+    constexpr base_move_construction(const base_move_construction&) = default;
     constexpr base_move_construction(base_move_construction&& other) noexcept(
         std::is_nothrow_move_constructible<T>::value)
         : base_copy_construction<T>(copy_tag{}, std::move(other))
@@ -221,9 +221,9 @@ template <typename T>
 struct base_copy_assignment<T, false> : base_move_construction<T>
 {
     using base_move_construction<T>::base_move_construction;
-    constexpr base_copy_assignment() noexcept                            = default;
-    constexpr base_copy_assignment(const base_copy_assignment&) noexcept = default;
-    constexpr base_copy_assignment(base_copy_assignment&&) noexcept      = default;
+    constexpr base_copy_assignment() noexcept                   = default;
+    constexpr base_copy_assignment(const base_copy_assignment&) = default;
+    constexpr base_copy_assignment(base_copy_assignment&&)      = default;
     constexpr base_copy_assignment& operator=(const base_copy_assignment& other) noexcept(
         std::is_nothrow_copy_assignable<T>::value && std::is_nothrow_copy_constructible<T>::value)
     {
@@ -263,10 +263,10 @@ template <typename T>
 struct base_move_assignment<T, false> : base_copy_assignment<T>
 {
     using base_copy_assignment<T>::base_copy_assignment;
-    constexpr base_move_assignment() noexcept                                       = default;
-    constexpr base_move_assignment(const base_move_assignment&) noexcept            = default;
-    constexpr base_move_assignment(base_move_assignment&&) noexcept                 = default;
-    constexpr base_move_assignment& operator=(const base_move_assignment&) noexcept = default;
+    constexpr base_move_assignment() noexcept                              = default;
+    constexpr base_move_assignment(const base_move_assignment&)            = default;
+    constexpr base_move_assignment(base_move_assignment&&)                 = default;
+    constexpr base_move_assignment& operator=(const base_move_assignment&) = default;
     constexpr base_move_assignment& operator=(base_move_assignment&& other) noexcept(
         std::is_nothrow_move_assignable<T>::value && std::is_nothrow_move_constructible<T>::value)
     {
-- 
2.43.0


From c1850a1adaddeefaa15142f39db93b2fc973fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:22 +0000
Subject: [PATCH 13/40] fix: convert lvalues of the contained type to optional
 implicitly

The value constructor asked whether the argument converts to T&&, which an
lvalue of T does not, so it became explicit and "optional<int> o; o = i;" did
not compile.
---
 include/cetl/pf17/optional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index d599df9..b69ef7b 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -335,7 +335,7 @@ constexpr bool enable_ctor8 =
     (!std::is_same<std::decay_t<U>, in_place_t>::value) &&                                     //
     (!std::is_same<std::decay_t<U>, optional<T>>::value) &&                                    //
     (!(std::is_same<std::decay_t<T>, bool>::value && is_optional<std::decay_t<U>>::value)) &&  //
-    (std::is_convertible<U&&, T&&>::value != Explicit);
+    ((std::is_convertible<U&&, T>::value || std::is_convertible<U&&, T&&>::value) != Explicit);
 
 template <typename Expression>
 using enable_comparison = std::enable_if_t<std::is_convertible<Expression, bool>::value, bool>;
-- 
2.43.0


From 983aff9537361df2ac66d9cce98c4858ed7b0ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:06 +0000
Subject: [PATCH 14/40] fix: compare optionals with the corresponding operator
 of the contained type

<=, >, >= and != of two optionals were derived from < and ==, which gives the
wrong answer for contained values that do not compare (NaN), and contradicts
the documentation of these operators.
---
 include/cetl/pf17/optional.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index b69ef7b..4a7d9de 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -676,7 +676,7 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() != st
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(lhs == rhs);
+    return (lhs.has_value() != rhs.has_value()) || (lhs.has_value() && ((*lhs) != (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() < std::declval<const U&>())> operator<(
@@ -690,21 +690,21 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() <= st
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(rhs < lhs);
+    return (!lhs.has_value()) || (rhs.has_value() && ((*lhs) <= (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() > std::declval<const U&>())> operator>(
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return rhs < lhs;
+    return lhs.has_value() && ((!rhs.has_value()) || ((*lhs) > (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() >= std::declval<const U&>())> operator>=(
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(lhs < rhs);
+    return (!rhs.has_value()) || (lhs.has_value() && ((*lhs) >= (*rhs)));
 }
 /// @}
 
@@ -803,7 +803,7 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() != st
     const T&           value,
     const optional<U>& opt)
 {
-    return (!opt.has_value()) || ((*opt) != value);
+    return (!opt.has_value()) || (value != (*opt));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() < std::declval<const U&>())> operator<(
-- 
2.43.0


From 541a1a4489c5ea1e8d3edb4fea205482ca3225ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:20 +0000
Subject: [PATCH 15/40] fix: accept converting assignment of variant from types
 with a throwing move

The converting assignment required the source type to be nothrow move
constructible, whereas it is the alternative that has to be.
---
 include/cetl/pf17/variant.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 3357e0f..9a191d2 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -1079,8 +1079,8 @@ private:
     template <std::size_t Ix, typename U, typename Alt = nth_type<Ix>>
     std::enable_if_t<!allows_direct_conversion<U, Alt>> convert_from(U&& from)
     {  // This is never noexcept, otherwise we would have chosen the simpler case.
-        static_assert(std::is_move_constructible<U>::value && std::is_nothrow_move_constructible<U>::value,
-                      "U shall be nothrow move constructible in this context; the implementation appears broken");
+        static_assert(std::is_move_constructible<Alt>::value && std::is_nothrow_move_constructible<Alt>::value,
+                      "Alt shall be nothrow move constructible in this context; the implementation appears broken");
         this->template set<Ix>(Alt(std::forward<U>(from)));
     }
 };
-- 
2.43.0


From e7de6bd40fef51d63fd30f752d7c20336dae5709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:20 +0000
Subject: [PATCH 16/40] fix: check the right constructor in emplace of variant
 with a list

The overloads taking an initializer list were enabled by the constructor
without the list.
---
 include/cetl/pf17/variant.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 9a191d2..7e530b1 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -991,8 +991,8 @@ public:
     template <typename T,
               typename U,
               typename... Args,
-              std::size_t Ix                                                  = index_of<T>,
-              std::enable_if_t<std::is_constructible<T, Args...>::value, int> = 0>
+              std::size_t Ix                                                                             = index_of<T>,
+              std::enable_if_t<std::is_constructible<T, std::initializer_list<U>&, Args...>::value, int> = 0>
     T& emplace(const std::initializer_list<U> il, Args&&... ar)
     {
         return this->template set<Ix>(il, std::forward<Args>(ar)...);
@@ -1009,9 +1009,9 @@ public:
     template <std::size_t Ix,
               typename U,
               typename... Args,
-              std::enable_if_t<(Ix < sizeof...(Ts)), int>                     = 0,
-              typename T                                                      = variant_alternative_t<Ix, variant>,
-              std::enable_if_t<std::is_constructible<T, Args...>::value, int> = 0>
+              std::enable_if_t<(Ix < sizeof...(Ts)), int> = 0,
+              typename T                                  = variant_alternative_t<Ix, variant>,
+              std::enable_if_t<std::is_constructible<T, std::initializer_list<U>&, Args...>::value, int> = 0>
     T& emplace(const std::initializer_list<U> il, Args&&... ar)
     {
         return this->template set<Ix>(il, std::forward<Args>(ar)...);
-- 
2.43.0


From d42d921538d84ac34a615cfa12dac55a671fda88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:19 +0000
Subject: [PATCH 17/40] fix: return references from visit

A visitor returning a reference got its result copied, because the type of the
result was taken from std::common_type, which decays it.
---
 include/cetl/pf17/variant.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 7e530b1..8758270 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -66,6 +66,12 @@ using req = std::enable_if_t<C, int>;
 
 // --------------------------------------------------------------------------------------------------------------------
 
+/// The common type of the results of a visitor; if they are all the same, that very type, which can be a reference.
+template <typename R, typename... Rs>
+struct visit_result
+    : std::conditional_t<conjunction_v<std::is_same<R, Rs>...>, std::enable_if<true, R>, std::common_type<R, Rs...>>
+{};
+
 template <typename>
 struct chronomorphize_impl;
 template <std::size_t... Is>
@@ -78,8 +84,8 @@ struct chronomorphize_impl<std::index_sequence<Is...>>
         static decltype(auto)
         lookup(F&& fun, const std::size_t index, Args&&... ar)
     {
-        using R = std::common_type_t<decltype(std::forward<F>(fun)(std::integral_constant<std::size_t, Is>{},
-                                                                   std::forward<Args>(ar)...))...>;
+        using R = typename visit_result<decltype(std::forward<F>(fun)(std::integral_constant<std::size_t, Is>{},
+                                                                      std::forward<Args>(ar)...))...>::type;
 #if __cplusplus >= 201703L
         constexpr
 #else
@@ -752,7 +758,7 @@ constexpr decltype(auto) visit(F&& fun, V&& var)
 {
     // https://twitter.com/PavelKirienko/status/1761525562370040002
     return chronomorphize(
-        [&fun, &var](const auto index) {
+        [&fun, &var](const auto index) -> decltype(auto) {
             return std::forward<F>(fun)(alt<index.value>(std::forward<V>(var)));  //
         },
         var);
@@ -765,9 +771,9 @@ constexpr decltype(auto) visit(F&& fun, V0&& var0, Vs&&... vars)
     // per variant. The recursive structure below builds a Cartesian product of the variant combinations
     // one level at a time starting with the leftmost variant. The complexity is one table jump per variant level.
     return visit(
-        [&](auto&& hh) {  // https://twitter.com/PavelKirienko/status/1761525562370040002
+        [&](auto&& hh) -> decltype(auto) {  // https://twitter.com/PavelKirienko/status/1761525562370040002
             return visit(
-                [&](auto&&... tt) {
+                [&](auto&&... tt) -> decltype(auto) {
                     return std::forward<F>(fun)(std::forward<decltype(hh)>(hh), std::forward<decltype(tt)>(tt)...);
                 },
                 std::forward<Vs>(vars)...);
-- 
2.43.0


From fcccc9e8676a38b10137471fd260c49590cf8b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:07 +0000
Subject: [PATCH 18/40] fix: copy and move an unbounded_variant that lost its
 value

Copying or moving a variant in the valueless-by-exception state called
a null copier or mover. The state is now taken over instead.
---
 include/cetl/unbounded_variant.hpp | 35 ++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index f36dc41..af958ae 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -146,6 +146,13 @@ struct base_storage<void /*Pmr*/, Footprint, Alignment>
         return value_size_ > 0UL;
     }
 
+    /// @brief Takes over the "valueless by exception" state of the source (there is no value to copy or move).
+    ///
+    void copy_valueless_storage_from(const base_storage& src) noexcept
+    {
+        value_size_ = src.value_size_;
+    }
+
     void reset() noexcept
     {
         value_size_ = 0UL;
@@ -299,6 +306,14 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         return false;
     }
 
+    /// @brief Takes over the "valueless by exception" state of the source (there is no value to copy or move).
+    ///
+    void copy_valueless_storage_from(const base_storage& src) noexcept
+    {
+        mem_res_    = src.get_memory_resource();
+        value_size_ = src.value_size_;
+    }
+
     void reset() noexcept
     {
         CETL_DEBUG_ASSERT((nullptr == allocated_buffer_) || (0UL != value_size_), "");
@@ -460,6 +475,14 @@ struct base_storage
         return (value_size_ > 0UL) && (nullptr == allocated_buffer_);
     }
 
+    /// @brief Takes over the "valueless by exception" state of the source (there is no value to copy or move).
+    ///
+    void copy_valueless_storage_from(const base_storage& src) noexcept
+    {
+        mem_res_    = src.get_memory_resource();
+        value_size_ = src.value_size_;
+    }
+
     void reset() noexcept
     {
         if (nullptr != allocated_buffer_)
@@ -903,7 +926,11 @@ private:
     {
         CETL_DEBUG_ASSERT(!base::has_value(), "Expected to be empty before copying from source.");
 
-        if (base::copy_raw_storage_from(src))
+        if (src.valueless_by_exception())
+        {
+            base::copy_valueless_storage_from(src);
+        }
+        else if (base::copy_raw_storage_from(src))
         {
             CETL_DEBUG_ASSERT(nullptr != src.value_copier_, "");
 
@@ -991,7 +1018,11 @@ private:
     {
         CETL_DEBUG_ASSERT(!base::has_value(), "Expected to be empty before moving from source.");
 
-        if (base::move_raw_storage_from(src))
+        if (src.valueless_by_exception())
+        {
+            base::copy_valueless_storage_from(src);
+        }
+        else if (base::move_raw_storage_from(src))
         {
             CETL_DEBUG_ASSERT(nullptr != src.value_mover_, "");
 
-- 
2.43.0


From 227b261bc6d8724662daff26379fb50674407737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:07 +0000
Subject: [PATCH 19/40] fix: release the buffer of an unbounded_variant whose
 constructor throws

The memory allocated for a value was lost when the constructor of
that value threw, because the destructor of the variant does not run.
---
 include/cetl/unbounded_variant.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index af958ae..fc08331 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -208,6 +208,17 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         CETL_DEBUG_ASSERT(nullptr != mem_res_, "");
     }
 
+    base_storage(const base_storage&)                = delete;
+    base_storage(base_storage&&) noexcept            = delete;
+    base_storage& operator=(const base_storage&)     = delete;
+    base_storage& operator=(base_storage&&) noexcept = delete;
+
+    ~base_storage()
+    {
+        // The buffer might be still here if construction of a variant has failed after the allocation.
+        reset();
+    }
+
     template <typename Tp>
     void check_footprint() const noexcept
     {
@@ -373,6 +384,17 @@ struct base_storage
         CETL_DEBUG_ASSERT(nullptr != mem_res_, "");
     }
 
+    base_storage(const base_storage&)                = delete;
+    base_storage(base_storage&&) noexcept            = delete;
+    base_storage& operator=(const base_storage&)     = delete;
+    base_storage& operator=(base_storage&&) noexcept = delete;
+
+    ~base_storage()
+    {
+        // The buffer might be still here if construction of a variant has failed after the allocation.
+        reset();
+    }
+
     template <typename Tp>
     void check_footprint() const noexcept
     {
-- 
2.43.0


From 62d6a5397ec9035e028ea3c1724e5ec9df8e67f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:07 +0000
Subject: [PATCH 20/40] fix: keep buffers and resources together in
 unbounded_variant::swap

A variant that lost its value may still own a buffer. Swapping it with
another one leaked that buffer or returned it to the other resource.
---
 include/cetl/unbounded_variant.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index fc08331..383f5af 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -1014,6 +1014,7 @@ struct base_move<Pmr, Footprint, Copyable, true /*Movable*/, Alignment>
 
     base_move& operator=(base_move&& other) noexcept
     {
+        base::reset();
         move_from(other);
         return *this;
     }
@@ -1504,8 +1505,9 @@ private:
         }
         else
         {
-            auto* const tmp_mr = base::set_memory_resource(rhs.get_memory_resource());
-            rhs.set_memory_resource(tmp_mr);
+            unbounded_variant tmp{rhs};
+            static_cast<base&>(rhs)   = *this;
+            static_cast<base&>(*this) = tmp;
         }
     }
 
@@ -1555,8 +1557,9 @@ private:
         }
         else
         {
-            auto* const tmp_mr = base::set_memory_resource(rhs.get_memory_resource());
-            rhs.set_memory_resource(tmp_mr);
+            unbounded_variant tmp{std::move(rhs)};
+            static_cast<base&>(rhs)   = std::move(*this);
+            static_cast<base&>(*this) = std::move(tmp);
         }
     }
 
-- 
2.43.0


From bde8bbcedb3803815568a0a90bcc47f19291d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:47 +0000
Subject: [PATCH 21/40] fix: forget the old handler when assignment to
 pmr::function fails

The pointer to the destroyed handler stayed behind, so that the next
conversion to bool failed the library's own debug assertion.
---
 include/cetl/pmr/function.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/function.hpp b/include/cetl/pmr/function.hpp
index 2b99bc3..3a9f44f 100644
--- a/include/cetl/pmr/function.hpp
+++ b/include/cetl/pmr/function.hpp
@@ -201,7 +201,11 @@ public:
               typename              = EnableIfLvIsCallable<FunctorDecay>>
     function& operator=(Functor&& functor)
     {
-        any_handler_ = detail::functor_handler<FunctorDecay, Result, Args...>{std::forward<Functor>(functor)};
+        detail::functor_handler<FunctorDecay, Result, Args...> handler{std::forward<Functor>(functor)};
+
+        // The old handler is gone even if the assignment below fails.
+        handler_ptr_ = nullptr;
+        any_handler_ = std::move(handler);
         handler_ptr_ = get_if<handler_t>(&any_handler_);
         return *this;
     }
@@ -214,6 +218,8 @@ public:
     {
         if (this != &other)
         {
+            // The old handler is gone even if the assignment below fails.
+            handler_ptr_ = nullptr;
             any_handler_ = other.any_handler_;
             handler_ptr_ = get_if<handler_t>(&any_handler_);
         }
-- 
2.43.0


From ee863489ad316f373cca0fee7ec19dd5aa6a64ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:51 +0000
Subject: [PATCH 22/40] fix: find an empty string_view at the end of the text

find() returned npos for an empty argument when the position is
size(), unlike std::string_view.
---
 include/cetl/pf17/string_view.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index ce2ca61..e76a056 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -332,6 +332,10 @@ public:
         {
             return npos;
         }
+        if (sv.size_ == 0)
+        {
+            return pos;
+        }
         const const_iterator result = std::search(data_ + pos, data_ + size_, sv.data_, sv.data_ + sv.size_);
         return result != data_ + size_ ? static_cast<size_type>(result - data_) : npos;
     }
-- 
2.43.0


From 029831334c28cb7cbb2c0273a006eb3e63323871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:22 +0000
Subject: [PATCH 23/40] fix: pad string_view output before the text unless left
 is set

Without left or right set in the stream's flags, no padding was
written at all.
---
 include/cetl/pf17/string_view.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index e76a056..583f7b0 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -362,10 +362,9 @@ public:
                 };
 
                 const std::streamsize padding_len = width - sv_length;
-                const bool            left        = os.flags() & std::basic_ios<CharT, Traits>::left;
-                const bool            right       = os.flags() & std::basic_ios<CharT, Traits>::right;
+                const bool            left        = (os.flags() & std::ios_base::adjustfield) == std::ios_base::left;
 
-                if (right)
+                if (!left)
                 {
                     pad(padding_len);
                 }
-- 
2.43.0


From 587114c340bfbb6655df6e866b73209ff058b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:17 +0000
Subject: [PATCH 24/40] fix: keep the buffer in use when reallocation within it
 fails

A failed reallocation marked the buffer as free although the caller still
owns the block, so the block was returned to the upstream resource later and
could be handed out twice.
---
 .../cetl/pmr/buffer_memory_resource_delegate.hpp   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pmr/buffer_memory_resource_delegate.hpp b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
index 652f2db..bd8665e 100644
--- a/include/cetl/pmr/buffer_memory_resource_delegate.hpp
+++ b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
@@ -110,8 +110,11 @@ private:
         void* result = nullptr;
         if (data == in_use_)
         {
-            result  = allocate_internal_buffer(new_object_count, new_align);
-            in_use_ = result;
+            result = allocate_internal_buffer(new_object_count, new_align);
+            if (nullptr != result)
+            {
+                in_use_ = result;
+            }
         }
         return result;
     }
@@ -128,8 +131,11 @@ private:
         void* result = nullptr;
         if (data == in_use_)
         {
-            result  = allocate_internal_buffer(new_object_count, new_align);
-            in_use_ = result;
+            result = allocate_internal_buffer(new_object_count, new_align);
+            if (nullptr != result)
+            {
+                in_use_ = result;
+            }
         }
         else
         {
-- 
2.43.0


From 5f437c0338eba089e9a36f9fb31497b7b1fbf232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:28 +0000
Subject: [PATCH 25/40] fix: align the control block of monotonic buffers

Upstream memory was requested with the alignment of the caller, which may be
less than what the control block at the start of the memory needs.
---
 include/cetl/pf17/memory_resource.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index e718ba2..f335c4c 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -693,7 +693,10 @@ protected:
             // Simple geometric progression of buffer size growth.
             const std::size_t next_buffer_size = std::min(max_size_v, grow_from_size + (grow_from_size / 2U));
 
-            void* raw = upstream_->allocate(sizeof(BufferControl) + next_buffer_size, alignment);
+            // The buffer starts with its control block.
+            const std::size_t buffer_align = std::max(alignment, alignof(BufferControl));
+
+            void* raw = upstream_->allocate(sizeof(BufferControl) + next_buffer_size, buffer_align);
             if (nullptr == raw)
             {
                 // out-of-memory with no exceptions.
@@ -701,7 +704,7 @@ protected:
             }
             void* buffer = &static_cast<BufferControl*>(raw)[1];
             current_buffer_ =
-                new (raw) BufferControl{buffer, next_buffer_size, alignment, next_buffer_size, current_buffer_};
+                new (raw) BufferControl{buffer, next_buffer_size, buffer_align, next_buffer_size, current_buffer_};
 
             result = do_allocate_from_current_buffer(size_bytes, alignment);
         }
-- 
2.43.0


From 0c9015c4609888c0fd33e8ed70a0a6c92f018ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:28 +0000
Subject: [PATCH 26/40] fix: refuse monotonic allocations that cannot be
 expressed

The sizes of the request, its alignment, the growth and the control block were
added without regard to overflow. Huge requests obtained buffers that are too
small, over and over again, or used memory behind such a buffer.
---
 include/cetl/pf17/memory_resource.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index f335c4c..0458947 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -683,15 +683,31 @@ protected:
 
         const std::size_t max_size_v = max_size();
 
+        constexpr std::size_t max_buffer_size = std::numeric_limits<std::size_t>::max() - sizeof(BufferControl);
+
         while (nullptr == result)
         {
+            // The new buffer has to have room for the requested size at any address.
+            if (size_bytes > max_buffer_size - alignment)
+            {
+#if defined(__cpp_exceptions)
+                throw std::bad_alloc();
+#else
+                break;
+#endif
+            }
+            const std::size_t min_buffer_size = size_bytes + alignment;
+
             // Grow the buffer starting with, at minimum 4 bytes, the current buffer size, or the requested size
             // plus alignment, whichever is larger.
             const std::size_t grow_from_size =
-                std::max({static_cast<std::size_t>(4), current_buffer_->buffer_size, size_bytes + alignment});
+                std::min(max_buffer_size,
+                         std::max({static_cast<std::size_t>(4), current_buffer_->buffer_size, min_buffer_size}));
 
             // Simple geometric progression of buffer size growth.
-            const std::size_t next_buffer_size = std::min(max_size_v, grow_from_size + (grow_from_size / 2U));
+            const std::size_t grow_to_size =
+                grow_from_size + std::min(grow_from_size / 2U, max_buffer_size - grow_from_size);
+            const std::size_t next_buffer_size = std::max(min_buffer_size, std::min(max_size_v, grow_to_size));
 
             // The buffer starts with its control block.
             const std::size_t buffer_align = std::max(alignment, alignof(BufferControl));
-- 
2.43.0


From 17bb136de1828d736396dfac76c4bc973251bb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:38 +0000
Subject: [PATCH 27/40] fix: check the size of polymorphic_allocator
 reallocations

The number of bytes was computed without regard to overflow, so a huge count
led to a block that is too small. The result was also cast to the value type of
the allocator instead of the type of the argument, which does not compile when
they differ.
---
 include/cetl/pf17/memory_resource.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 0458947..e76862e 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -492,7 +492,16 @@ public:
     typename std::enable_if<deviant::memory_resource_traits<memory_resource>::is_reallocate_defined::value, U>::type*
     reallocate(U* ptr, std::size_t old_object_count, std::size_t new_object_count)
     {
-        return static_cast<T*>(
+        if (std::numeric_limits<std::size_t>::max() / sizeof(U) < new_object_count)
+        {
+#if defined(__cpp_exceptions)
+            // See allocate.
+            throw std::bad_array_new_length();
+#else
+            return nullptr;
+#endif
+        }
+        return static_cast<U*>(
             deviant::memory_resource_traits<memory_resource>::reallocate(*memory_resource_,
                                                                          ptr,
                                                                          sizeof(U) * old_object_count,
-- 
2.43.0


From 2f11e154f84331944a2118a6116a1ae77db6ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:38 +0000
Subject: [PATCH 28/40] fix: let exceptions leave
 memory_resource_traits::reallocate

memory_resource::reallocate is documented to throw bad_alloc, but the traits
called it from a noexcept function, which terminated the program.
---
 include/cetl/pf17/memory_resource.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index e76862e..6a8a024 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -272,11 +272,7 @@ private:
     // +--[reallocate_impl]---------------------------------------------------+
     template <typename U>
     static constexpr typename std::enable_if<std::is_base_of<cetl::pf17::pmr::memory_resource, U>::value>::type*
-    reallocate_impl(U&          mr,
-                    void*       ptr,
-                    std::size_t old_size_bytes,
-                    std::size_t new_size_bytes,
-                    std::size_t alignment) noexcept
+    reallocate_impl(U& mr, void* ptr, std::size_t old_size_bytes, std::size_t new_size_bytes, std::size_t alignment)
     {
         return mr.reallocate(ptr, old_size_bytes, new_size_bytes, alignment);
     }
-- 
2.43.0


From c25718f35bffbaad1f3fe0f88a1f979bb5e21e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:38 +0000
Subject: [PATCH 29/40] fix: move from rvalue pairs in
 polymorphic_allocator::construct

The overload for rvalue pairs named the first type twice, so it was never
chosen: the members were copied instead of moved.
---
 include/cetl/pf17/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 6a8a024..7b2647c 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -574,7 +574,7 @@ public:
     }
 
     template <class FirstType, class SecondType, class MoveFromFirstType, class MoveFromSecondType>
-    void construct(std::pair<FirstType, FirstType>* p, std::pair<MoveFromFirstType, MoveFromSecondType>&& moveFrom)
+    void construct(std::pair<FirstType, SecondType>* p, std::pair<MoveFromFirstType, MoveFromSecondType>&& moveFrom)
     {
         construct(p,
                   std::piecewise_construct,
-- 
2.43.0


From 13879fe47489483b26cc84c986de3bbb9beff9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:38 +0000
Subject: [PATCH 30/40] fix: do not return references to a temporary tuple

Piecewise construction of a pair from tuples that hold values, with a member
that uses the allocator, read the arguments from a tuple that was gone.
---
 include/cetl/pf17/memory_resource.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 7b2647c..a4a56bf 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -397,7 +397,7 @@ class polymorphic_allocator
 
     template <typename PairType, typename... PTArgsT>
     typename std::enable_if_t<is_leading_allocator_constructible<PairType, PTArgsT...>::value,
-                              std::tuple<std::allocator_arg_t, polymorphic_allocator, PTArgsT&&...>>
+                              std::tuple<std::allocator_arg_t, polymorphic_allocator, PTArgsT...>>
     make_pair_member_args(std::tuple<PTArgsT...>& pmArgs)
     {
         // https://cplusplus.github.io/LWG/issue2969
@@ -406,7 +406,7 @@ class polymorphic_allocator
 
     template <typename PairType, typename... PTArgsT>
     typename std::enable_if_t<is_trailing_allocator_constructible<PairType, PTArgsT...>::value,
-                              std::tuple<PTArgsT&&..., polymorphic_allocator>>
+                              std::tuple<PTArgsT..., polymorphic_allocator>>
     make_pair_member_args(std::tuple<PTArgsT...>& pmArgs)
     {
         // https://cplusplus.github.io/LWG/issue2969
-- 
2.43.0


From d59d481e0508895cde53942f3c92dcf313ee07d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:38 +0000
Subject: [PATCH 31/40] fix: keep the resource when a MemoryResourceDeleter is
 assigned to itself

Self-move-assignment of a unique_ptr is harmless by itself, but its deleter lost
the resource and the block was never deallocated.
---
 include/cetl/pmr/memory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index be4e333..0356a5e 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -69,7 +69,10 @@ public:
     /// @return Reference to this.
     MemoryResourceDeleter& operator=(MemoryResourceDeleter&& rhs) noexcept
     {
-        swap(std::move(rhs));
+        if (this != &rhs)
+        {
+            swap(std::move(rhs));
+        }
         return *this;
     }
 
-- 
2.43.0


From f1c4fd04df2bf285d627a42ae9540d2c2adcec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:03 +0000
Subject: [PATCH 32/40] fix: do not destroy what Factory::make_unique failed to
 construct

When the constructor threw, the deleter of the half-made pointer destroyed an
object that never existed.
---
 include/cetl/pmr/memory.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index 0356a5e..becbf1b 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -238,14 +238,34 @@ public:
     static auto make_unique(PolymorphicAllocatorTypeU& alloc, Args&&... args) ->
         typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>
     {
-        typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>
-            p{alloc.allocate(1), typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>::deleter_type{alloc, 1}};
-        if (nullptr != p)
+        using Deleter = typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>::deleter_type;
+        typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU> p{nullptr, Deleter{alloc, 1}};
+
+        // The constructor may throw, so the memory is only handed over to the result (which destroys the object)
+        // when there is an object.
+        using Storage = StorageDeleter<PolymorphicAllocatorTypeU>;
+        std::unique_ptr<typename PolymorphicAllocatorTypeU::value_type, Storage> storage{alloc.allocate(1),
+                                                                                         Storage{alloc}};
+        if (nullptr != storage)
         {
-            alloc.construct(p.get(), std::forward<Args>(args)...);
+            alloc.construct(storage.get(), std::forward<Args>(args)...);
+            p.reset(storage.release());
         }
         return p;
     }
+
+private:
+    /// Deallocates memory that holds no object.
+    template <typename PolymorphicAllocatorTypeU>
+    struct StorageDeleter final
+    {
+        PolymorphicAllocatorTypeU& alloc;
+
+        void operator()(typename PolymorphicAllocatorTypeU::value_type* p) noexcept
+        {
+            alloc.deallocate(p, 1);
+        }
+    };
 };
 
 }  // namespace pmr
-- 
2.43.0


From e9ce702402ac49c9f282a8b63b4aa9004135c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:54 +0000
Subject: [PATCH 33/40] fix: report memory exhaustion of
 MaxAlignNewDeleteResource

memory_resource::allocate throws bad_alloc when it fails and exceptions are
available; the failure of malloc was returned as a null pointer instead.
---
 include/cetl/pf17/sys/memory_resource.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pf17/sys/memory_resource.hpp b/include/cetl/pf17/sys/memory_resource.hpp
index 4193a0a..c45de5a 100644
--- a/include/cetl/pf17/sys/memory_resource.hpp
+++ b/include/cetl/pf17/sys/memory_resource.hpp
@@ -44,7 +44,14 @@ protected:
 #endif
             return nullptr;
         }
-        return std::malloc(size_bytes);
+        void* const result = std::malloc(size_bytes);
+#if defined(__cpp_exceptions)
+        if ((nullptr == result) && (size_bytes > 0))
+        {
+            throw std::bad_alloc();
+        }
+#endif
+        return result;
     }
 
     void do_deallocate(void* p, std::size_t size_bytes, std::size_t alignment) override
-- 
2.43.0


From d3b0d7c7d89535cc03026db8bab0d179324e8841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:54 +0000
Subject: [PATCH 34/40] fix: refuse over-aligned reallocations in
 MaxAlignNewDeleteResource

allocate refuses alignments that malloc cannot provide but reallocate ignored
them. A VariableLengthArray obtains its first block by reallocation and got
misaligned storage.
---
 include/cetl/pf17/sys/memory_resource.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pf17/sys/memory_resource.hpp b/include/cetl/pf17/sys/memory_resource.hpp
index c45de5a..581b7d9 100644
--- a/include/cetl/pf17/sys/memory_resource.hpp
+++ b/include/cetl/pf17/sys/memory_resource.hpp
@@ -67,7 +67,10 @@ protected:
                         std::size_t alignment) override
     {
         (void) old_size_bytes;
-        (void) alignment;
+        if (alignment > alignof(std::max_align_t))
+        {
+            return nullptr;
+        }
         return std::realloc(ptr, new_size_bytes);
     }
 
-- 
2.43.0


From 272c71da59601b030dbfe9cdd020536dba0e7576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:04:57 +0000
Subject: [PATCH 35/40] fix: do not construct a fixed-extent span from an array
 of another length

---
 include/cetl/pf20/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf20/span.hpp b/include/cetl/pf20/span.hpp
index 7a5cb5a..f4255f6 100644
--- a/include/cetl/pf20/span.hpp
+++ b/include/cetl/pf20/span.hpp
@@ -131,7 +131,7 @@ public:
     /// Creates a span starting at the first element of a c-style array through to the end of that array.
     /// @param arr  Reference to a C-style array.
     /// @see std::span::span()
-    template <std::size_t DeducedExtent = Extent, typename std::enable_if<(DeducedExtent != 0), bool>::type = true>
+    template <std::size_t DeducedExtent = Extent, typename std::enable_if<(DeducedExtent == Extent), bool>::type = true>
     constexpr span(element_type (&arr)[DeducedExtent]) noexcept
         : data_(arr)
     {
-- 
2.43.0


From 9bdf4f76984bdc9945b6809245b93ea51ecf6156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:04:57 +0000
Subject: [PATCH 36/40] fix: include <utility> in visit_helpers.hpp

---
 include/cetl/visit_helpers.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cetl/visit_helpers.hpp b/include/cetl/visit_helpers.hpp
index b522a10..adf53d1 100644
--- a/include/cetl/visit_helpers.hpp
+++ b/include/cetl/visit_helpers.hpp
@@ -10,6 +10,7 @@
 #define CETL_VISIT_HELPERS_HPP_INCLUDED
 
 #include <type_traits>
+#include <utility>
 
 namespace cetl
 {
-- 
2.43.0


From 5d34d886fb2812377418e124f4790897bc9d9e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:04:57 +0000
Subject: [PATCH 37/40] fix: is_swappable accepts a swap that returns a value

---
 include/cetl/pf17/type_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/type_traits.hpp b/include/cetl/pf17/type_traits.hpp
index 8836be0..569db26 100644
--- a/include/cetl/pf17/type_traits.hpp
+++ b/include/cetl/pf17/type_traits.hpp
@@ -28,7 +28,7 @@ template <typename T, typename = void>
 struct is_swappable : std::false_type
 {};
 template <typename T>
-struct is_swappable<T, decltype(swap(std::declval<T&>(), std::declval<T&>()))> : std::true_type
+struct is_swappable<T, decltype(static_cast<void>(swap(std::declval<T&>(), std::declval<T&>())))> : std::true_type
 {};
 
 template <typename T, bool = is_swappable<T>::value>
-- 
2.43.0


From 311ab1d59544b7a41d2454a147dd521d9192faaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:28 +0000
Subject: [PATCH 38/40] fix: let optional::value() be used in constant
 expressions

---
 include/cetl/pf17/optional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 4a7d9de..311fdf0 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -645,7 +645,7 @@ public:
     }
 
 private:
-    void ensure_engaged() const
+    constexpr void ensure_engaged() const
     {
         if (!this->m_engaged)
         {
-- 
2.43.0


From 03a1b62a7deaea23b58f4f820e2f7c3d0cb154b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:28 +0000
Subject: [PATCH 39/40] fix: give an allocator-extended copy of an array the
 allocator that was asked for

---
 include/cetl/variable_length_array.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 5fc0e5e..3018c10 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -843,7 +843,7 @@ protected:
 
     constexpr VariableLengthArrayBase(const VariableLengthArrayBase& rhs, const allocator_type& rhs_alloc) noexcept(
         std::is_nothrow_copy_constructible<allocator_type>::value)
-        : alloc_(std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs_alloc))
+        : alloc_(rhs_alloc)
         , data_(nullptr)
         , capacity_(0)
         , size_(0)
@@ -870,7 +870,7 @@ protected:
         VariableLengthArrayBase&& rhs,
         const UAlloc&             rhs_alloc,
         typename std::enable_if_t<std::allocator_traits<UAlloc>::is_always_equal::value>* = nullptr) noexcept
-        : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
+        : alloc_(rhs_alloc)
         , data_(std::move(rhs.data_))
         , capacity_(rhs.capacity_)
         , size_(rhs.size_)
@@ -888,7 +888,7 @@ protected:
         VariableLengthArrayBase&& rhs,
         const UAlloc&             rhs_alloc,
         typename std::enable_if_t<!std::allocator_traits<UAlloc>::is_always_equal::value>* = nullptr)
-        : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
+        : alloc_(rhs_alloc)
         , data_{nullptr}
         , capacity_(0)
         , size_(0)
@@ -1112,7 +1112,8 @@ public:
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
-        : VariableLengthArray(rhs, rhs.alloc_)
+        : VariableLengthArray(rhs,
+                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs.alloc_))
     {
     }
 
@@ -1985,7 +1986,8 @@ public:
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
-        : VariableLengthArray(rhs, rhs.alloc_)
+        : VariableLengthArray(rhs,
+                              std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs.alloc_))
     {
     }
 
-- 
2.43.0


From 69ffe718761d4f3f67e372312b1ffb96ed4e3235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:28 +0000
Subject: [PATCH 40/40] fix: keep the content when a buffer delegate moves a
 block to a stricter alignment

---
 include/cetl/pmr/buffer_memory_resource_delegate.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pmr/buffer_memory_resource_delegate.hpp b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
index bd8665e..d776759 100644
--- a/include/cetl/pmr/buffer_memory_resource_delegate.hpp
+++ b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
@@ -18,6 +18,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <cstring>  // for std::memmove
 #include <limits>
 #include <memory>  // for std::align
 
@@ -105,7 +106,6 @@ private:
                         std::size_t           new_object_count,
                         std::size_t           new_align)
     {
-        (void) old_object_count;
         (void) upstream;
         void* result = nullptr;
         if (data == in_use_)
@@ -113,6 +113,10 @@ private:
             result = allocate_internal_buffer(new_object_count, new_align);
             if (nullptr != result)
             {
+                if ((nullptr != data) && (result != data))
+                {
+                    std::memmove(result, data, std::min(old_object_count, new_object_count));
+                }
                 in_use_ = result;
             }
         }
@@ -127,13 +131,16 @@ private:
                         std::size_t           new_object_count,
                         std::size_t           new_align)
     {
-        (void) old_object_count;
         void* result = nullptr;
         if (data == in_use_)
         {
             result = allocate_internal_buffer(new_object_count, new_align);
             if (nullptr != result)
             {
+                if ((nullptr != data) && (result != data))
+                {
+                    std::memmove(result, data, std::min(old_object_count, new_object_count));
+                }
                 in_use_ = result;
             }
         }
-- 
2.43.0

