From f7ece2a3e9c1b1b5bb227d2c5d657575eeea5ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 01/44] fix: DynamicData built from a reference must own its
 own copy of the instance

---
 include/xtypes/DynamicData.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index de5d7fe..44bba33 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1332,14 +1332,17 @@ public:
     /// \brief Copy constructor from a ReadableDynamicDataRef
     DynamicData(
             const ReadableDynamicDataRef& other)
-        : WritableDynamicDataRef(other)
+        : WritableDynamicDataRef(other.type(), new uint8_t[other.type().memory_size()])
     {
+        memset(instance_, 0, type_->memory_size());
+        type_->copy_instance(instance_, p_instance(other));
+        initialize_ = true;
     }
 
     /// \brief Move constructor from a WritableDynamicDataRef
     DynamicData(
             WritableDynamicDataRef&& other)
-        : WritableDynamicDataRef(std::move(other))
+        : DynamicData(static_cast<const ReadableDynamicDataRef&>(other))
     {
     }
 
-- 
2.43.0


From ee452d49f839d9935c6a793e9aaa0d50ace9a773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 02/44] fix: a moved DynamicData leaks its content and leaves
 collections inconsistent

---
 include/xtypes/DynamicData.hpp      | 2 +-
 include/xtypes/MapInstance.hpp      | 4 +++-
 include/xtypes/SequenceInstance.hpp | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 44bba33..5dc1131 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1380,7 +1380,7 @@ public:
     {
         memset(instance_, 0, other.type().memory_size());
         type_->move_instance(instance_, p_instance(other), false);
-        other.initialize_ = false;
+        initialize_ = true;
     }
 
     /// \brief Assignment operator
diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 305c0c0..c77e88c 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -93,13 +93,15 @@ public:
 
     MapInstance(
             MapInstance&& other)
-        : content_(std::move(other.content_))
+        : content_(other.content_)
         , block_size_(std::move(other.block_size_))
         , capacity_(std::move(other.capacity_))
         , memory_(std::move(other.memory_))
         , size_(std::move(other.size_))
     {
         other.memory_ = nullptr;
+        other.capacity_ = 0;
+        other.size_ = 0;
     }
 
     /// \brief Deep equality operator
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 48779ec..a32b28b 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -104,13 +104,15 @@ public:
 
     SequenceInstance(
             SequenceInstance&& other)
-        : content_(std::move(other.content_))
+        : content_(other.content_)
         , block_size_(std::move(other.block_size_))
         , capacity_(std::move(other.capacity_))
         , memory_(std::move(other.memory_))
         , size_(std::move(other.size_))
     {
         other.memory_ = nullptr;
+        other.capacity_ = 0;
+        other.size_ = 0;
     }
 
     /// \brief Deep equality operator
-- 
2.43.0


From 8be420c53e9c937c2f7c21c8126fda559a6be224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 03/44] fix: move_instance must really move and destroy an
 initialized target

---
 include/xtypes/MapType.hpp      | 2 +-
 include/xtypes/SequenceType.hpp | 2 +-
 include/xtypes/StringType.hpp   | 8 ++++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index d6bf866..59dec95 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -127,7 +127,7 @@ public:
         {
             destroy_instance(target);
         }
-        new (target) MapInstance(std::move(*reinterpret_cast<const MapInstance*>(source)));
+        new (target) MapInstance(std::move(*reinterpret_cast<MapInstance*>(source)));
     }
 
     virtual void destroy_instance(
diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index 84500a0..3be6830 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -121,7 +121,7 @@ public:
         {
             destroy_instance(target);
         }
-        new (target) SequenceInstance(std::move(*reinterpret_cast<const SequenceInstance*>(source)));
+        new (target) SequenceInstance(std::move(*reinterpret_cast<SequenceInstance*>(source)));
     }
 
     virtual void destroy_instance(
diff --git a/include/xtypes/StringType.hpp b/include/xtypes/StringType.hpp
index 382949b..dedfa0f 100644
--- a/include/xtypes/StringType.hpp
+++ b/include/xtypes/StringType.hpp
@@ -101,9 +101,13 @@ public:
     virtual void move_instance(
             uint8_t* target,
             uint8_t* source,
-            bool) const override
+            bool initialized) const override
     {
-        new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<const std::basic_string<CHAR_T>*>(source)));
+        if (initialized)
+        {
+            destroy_instance(target);
+        }
+        new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<std::basic_string<CHAR_T>*>(source)));
     }
 
     virtual void destroy_instance(
-- 
2.43.0


From b863e9ca9f4647fd519d813fdca9dbbf940a00e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 04/44] fix: collections leak the instances constructed in
 reserved memory

---
 include/xtypes/MapInstance.hpp      |  2 ++
 include/xtypes/SequenceInstance.hpp | 10 +++-------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index c77e88c..e5eed21 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -148,6 +148,7 @@ public:
         }
 
         uint8_t* place = create_place(instance);
+        content_->destroy_instance(place); // all the reserved memory holds constructed instances
         content_->first().copy_instance(place, instance);
         content_->second().construct_instance(place + content_->first().memory_size());
 
@@ -289,6 +290,7 @@ private:
         {
             for (uint32_t i = 0; i < min_size; i++)
             {
+                content_->destroy_instance(memory_ + i * block_size_);
                 content_->copy_instance_from_type(
                     memory_ + i * block_size_,
                     other.memory_ + i * other.content_->memory_size(),
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index a32b28b..e9ffb1c 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -158,6 +158,7 @@ public:
         }
 
         uint8_t* place = memory_ + size_ * block_size_;
+        content_->destroy_instance(place); // all the reserved memory holds constructed instances
         content_->copy_instance(place, instance);
 
         size_++;
@@ -177,13 +178,7 @@ public:
             return;
         }
 
-        realloc(new_size, bounds);
-
-        for (size_t i = size_; i < new_size; i++)
-        {
-            uint8_t* place = memory_ + i * block_size_;
-            content_->construct_instance(place);
-        }
+        realloc(new_size, bounds); // the new memory holds default-constructed instances
 
         size_ = new_size;
     }
@@ -283,6 +278,7 @@ private:
         {
             for (uint32_t i = 0; i < min_size; i++)
             {
+                content_->destroy_instance(memory_ + i * block_size_);
                 content_->copy_instance_from_type(
                     memory_ + i * block_size_,
                     other.memory_ + i * other_block_size,
-- 
2.43.0


From d1ccce8e031c273b5e1de83a5d8de4a1fd0e8675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 05/44] fix: pushing or inserting a value stored in the same
 collection reads released memory

---
 include/xtypes/MapInstance.hpp      | 12 ++++++++++--
 include/xtypes/SequenceInstance.hpp |  4 ++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index e5eed21..8a38111 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -21,6 +21,7 @@
 
 #include <cstdint>
 #include <cstring>
+#include <memory>
 
 namespace eprosima {
 namespace xtypes {
@@ -142,14 +143,21 @@ public:
             const uint8_t* instance,
             uint32_t bounds)
     {
+        xtypes_assert(find_place(instance, true) == nullptr, "Key already exists.");
+
+        // The key can be stored in this map, whose elements are going to be moved: take a copy of it.
+        std::unique_ptr<uint8_t[]> key(new uint8_t[content_->first().memory_size()]());
+        content_->first().copy_instance(key.get(), instance);
+
         if (memory_ == nullptr || size_ == capacity_)
         {
             realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
         }
 
-        uint8_t* place = create_place(instance);
+        uint8_t* place = create_place(key.get());
         content_->destroy_instance(place); // all the reserved memory holds constructed instances
-        content_->first().copy_instance(place, instance);
+        content_->first().move_instance(place, key.get(), false);
+        content_->first().destroy_instance(key.get());
         content_->second().construct_instance(place + content_->first().memory_size());
 
         size_++;
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index e9ffb1c..a44320b 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -154,7 +154,11 @@ public:
     {
         if (memory_ == nullptr || size_ == capacity_)
         {
+            // The instance to push can be an element of this sequence: follow it to the new memory
+            bool own = memory_ != nullptr && instance >= memory_ && instance < memory_ + size_ * block_size_;
+            size_t own_offset = own ? size_t(instance - memory_) : 0;
             realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+            instance = own ? memory_ + own_offset : instance;
         }
 
         uint8_t* place = memory_ + size_ * block_size_;
-- 
2.43.0


From b0383b122b207800ee4d6a8766abdac28c6ff6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 06/44] fix: storage of collections larger than 4 GiB overflows
 its computed size

---
 include/xtypes/MapInstance.hpp      | 2 +-
 include/xtypes/SequenceInstance.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 8a38111..f124d34 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -222,7 +222,7 @@ private:
     friend class MapType;
 
     std::shared_ptr<const PairType> content_;
-    uint32_t block_size_ = 0;
+    size_t block_size_ = 0;
     uint32_t capacity_ = 0;
     uint8_t* memory_ = nullptr;
     uint32_t size_ = 0;
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index a44320b..02ad4a0 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -210,7 +210,7 @@ private:
     friend class SequenceType;
 
     std::shared_ptr<const DynamicType> content_;
-    uint32_t block_size_ = 0;
+    size_t block_size_ = 0;
     uint32_t capacity_ = 0;
     uint8_t* memory_ = nullptr;
     uint32_t size_ = 0;
-- 
2.43.0


From 0064d3c8e7bdc5f99dc59bdd658384d3458dde56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 07/44] fix: conversion of collections copies bits between
 different types and leaves extra array elements unconstructed

---
 include/xtypes/ArrayType.hpp        | 8 +++++++-
 include/xtypes/SequenceInstance.hpp | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 62efd0c..49a17c0 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -160,7 +160,8 @@ public:
         size_t other_block_size = other_array.content_type().memory_size();
         size_t min_dimension = std::min(dimension_, other_array.dimension_);
 
-        if (content_type().is_constructed_type() || block_size != other_block_size)
+        if (content_type().is_constructed_type()
+                || content_type().is_compatible(other_array.content_type()) != TypeConsistency::EQUALS)
         {
             for (uint32_t i = 0; i < min_dimension; i++)
             {
@@ -174,6 +175,11 @@ public:
         {
             std::memcpy(target, source, min_dimension * block_size);
         }
+
+        for (uint32_t i = min_dimension; i < dimension_; i++) // elements that the other array doesn't have
+        {
+            content_type().construct_instance(target + i * block_size);
+        }
     }
 
     virtual void move_instance(
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 02ad4a0..f2209e4 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -278,7 +278,8 @@ private:
             realloc(min_size, bounds);
         }
 
-        if (content_->is_constructed_type() || block_size_ != other_block_size)
+        if (content_->is_constructed_type()
+                || content_->is_compatible(*other.content_) != TypeConsistency::EQUALS)
         {
             for (uint32_t i = 0; i < min_size; i++)
             {
-- 
2.43.0


From a73c39e00a6df402e3d48a6c4eb68c5878bc0e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 08/44] fix: hash of sequences depends on addresses and bounds
 instead of on their elements

---
 include/xtypes/SequenceType.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index 3be6830..3190c1e 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -234,22 +234,15 @@ public:
     virtual uint64_t hash(
             const uint8_t* c_instance) const override
     {
-        if (bounds() > 0)
+        const SequenceInstance& sequence = *reinterpret_cast<const SequenceInstance*>(c_instance);
+        if (sequence.size() > 0)
         {
-            uint8_t* instance = const_cast<uint8_t*>(c_instance);
-            if (content_type().is_constructed_type())
+            uint64_t h = content_type().hash(sequence[0]);
+            for (uint32_t i = 1; i < sequence.size(); ++i)
             {
-                uint64_t h = content_type().hash(instance);
-                for (size_t i = 1; i < bounds(); ++i)
-                {
-                    Instanceable::hash_combine(h, content_type().hash(get_instance_at(instance, i)));
-                }
-                return h;
-            }
-            else
-            {
-                return Instanceable::hash(instance);
+                Instanceable::hash_combine(h, content_type().hash(sequence[i]));
             }
+            return h;
         }
         return 0;
     }
-- 
2.43.0


From fe23ccd125f5d153799825038dcb0113dd2d784c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 09/44] fix: collections of floating-point values are compared
 by their bits

---
 include/xtypes/ArrayType.hpp        | 16 +++++-----------
 include/xtypes/MapInstance.hpp      | 16 +++++-----------
 include/xtypes/SequenceInstance.hpp | 16 +++++-----------
 3 files changed, 15 insertions(+), 33 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 49a17c0..63f225e 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -218,20 +218,14 @@ public:
             const uint8_t* instance,
             const uint8_t* other_instance) const override
     {
+        // Elements are compared one by one even if primitive: equal floating-point values can differ in its bits
         size_t block_size = content_type().memory_size();
-        if (content_type().is_constructed_type())
-        {
-            bool comp = true;
-            for (uint32_t i = 0; i < dimension_; i++)
-            {
-                comp &= content_type().compare_instance(instance + i * block_size, other_instance + i * block_size);
-            }
-            return comp;
-        }
-        else //optimization when the type is primitive
+        bool comp = true;
+        for (uint32_t i = 0; i < dimension_; i++)
         {
-            return std::memcmp(instance, other_instance, dimension_ * block_size) == 0;
+            comp &= content_type().compare_instance(instance + i * block_size, other_instance + i * block_size);
         }
+        return comp;
     }
 
     virtual TypeConsistency is_compatible(
diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index f124d34..e1d17e3 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -114,19 +114,13 @@ public:
             return false;
         }
 
-        if (content_->first().is_constructed_type() || content_->second().is_constructed_type())
+        // Pairs are compared one by one even if primitive: equal floating-point values can differ in its bits
+        bool comp = true;
+        for (uint32_t i = 0; i < size_; i++)
         {
-            bool comp = true;
-            for (uint32_t i = 0; i < size_; i++)
-            {
-                comp &= content_->compare_instance(memory_ + i * block_size_, other.memory_ + i * block_size_);
-            }
-            return comp;
-        }
-        else //optimization when the pair are both primitive
-        {
-            return std::memcmp(memory_, other.memory_, size_ * block_size_) == 0;
+            comp &= content_->compare_instance(memory_ + i * block_size_, other.memory_ + i * block_size_);
         }
+        return comp;
     }
 
     virtual ~MapInstance()
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index f2209e4..0e7f7bc 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -124,19 +124,13 @@ public:
             return false;
         }
 
-        if (content_->is_constructed_type())
+        // Elements are compared one by one even if primitive: equal floating-point values can differ in its bits
+        bool comp = true;
+        for (uint32_t i = 0; i < size_; i++)
         {
-            bool comp = true;
-            for (uint32_t i = 0; i < size_; i++)
-            {
-                comp &= content_->compare_instance(memory_ + i * block_size_, other.memory_ + i * block_size_);
-            }
-            return comp;
-        }
-        else //optimization when the type is primitive
-        {
-            return std::memcmp(memory_, other.memory_, size_ * block_size_) == 0;
+            comp &= content_->compare_instance(memory_ + i * block_size_, other.memory_ + i * block_size_);
         }
+        return comp;
     }
 
     virtual ~SequenceInstance()
-- 
2.43.0


From fe2f505989db1f315620d1a2296016081168e4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 10/44] fix: enumerations accept lower values after the biggest
 one, and lose their type when cloned

---
 include/xtypes/EnumerationType.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/EnumerationType.hpp b/include/xtypes/EnumerationType.hpp
index ad586f2..3d9cae2 100644
--- a/include/xtypes/EnumerationType.hpp
+++ b/include/xtypes/EnumerationType.hpp
@@ -34,7 +34,8 @@ public:
             T value)
     {
         // New values must be always greater than the previous ones
-        xtypes_assert(value >= next_value_,
+        // (next_value_ is zero again after the biggest value of the underlying type)
+        xtypes_assert(value >= next_value_ && (next_value_ != T() || EnumeratedType<T>::values_.empty()),
             "Expected a value greater than " + std::to_string(next_value_) + " but received " + std::to_string(value));
         EnumeratedType<T>::insert_enumerator(name, value);
         next_value_ = value + 1;
@@ -57,7 +58,7 @@ public:
         else
         {
             auto it = EnumeratedType<T>::values_.begin();
-            return it.second;
+            return it->second;
         }
     }
 
@@ -71,6 +72,14 @@ public:
     }
 
 protected:
+    std::shared_ptr<DynamicType> clone() const override
+    {
+        auto clon = std::make_shared<EnumerationType>(this->name());
+        clon->values_ = this->values_;
+        clon->next_value_ = next_value_;
+        return clon;
+    }
+
     T next_value_ = T();
 
 };
-- 
2.43.0


From 85127b3a06533bc9a02d7e596e076bd49f862cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 11/44] fix: conversion from 8 and 16 bits enumerations reads
 four bytes

---
 include/xtypes/PrimitiveType.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index 2e32a73..cddd0e7 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -171,9 +171,22 @@ protected:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint16_t*>(source);
                 break;
             case TypeKind::UINT_32_TYPE:
-            case TypeKind::ENUMERATION_TYPE:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint32_t*>(source);
                 break;
+            case TypeKind::ENUMERATION_TYPE: // The underlying type is determined by its size
+                if (other.memory_size() == sizeof(uint8_t))
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint8_t*>(source);
+                }
+                else if (other.memory_size() == sizeof(uint16_t))
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint16_t*>(source);
+                }
+                else
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint32_t*>(source);
+                }
+                break;
             case TypeKind::UINT_64_TYPE:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint64_t*>(source);
                 break;
-- 
2.43.0


From 865bb3a6d84e16cebe3605309eb6f881851407b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 12/44] fix: compatibility of primitive and enumerated types
 depends on which one is asked

---
 include/xtypes/PrimitiveType.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index cddd0e7..73fe270 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -243,7 +243,7 @@ protected:
         if (other.kind() == TypeKind::ALIAS_TYPE)
         {
             const AliasType& other_alias = static_cast<const AliasType&>(other);
-            return other_alias.is_compatible(*this);
+            return is_compatible(other_alias.rget());
         }
 
         if (other.kind() == TypeKind::STRUCTURE_TYPE) // Resolve one-member structs
@@ -251,6 +251,11 @@ protected:
             return other.is_compatible(*this);
         }
 
+        if (other.is_enumerated_type())
+        {
+            return other.is_compatible(*this);
+        }
+
         if (!other.is_primitive_type())
         {
             return TypeConsistency::NONE;
-- 
2.43.0


From 0fcd325b7d1a04655a61ed4952dc3060c55482e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 13/44] fix: int32 and float sequences and arrays (same size
 and sign) must be converted by value

---
 include/xtypes/ArrayType.hpp        | 2 +-
 include/xtypes/SequenceInstance.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 63f225e..feae7d4 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -161,7 +161,7 @@ public:
         size_t min_dimension = std::min(dimension_, other_array.dimension_);
 
         if (content_type().is_constructed_type()
-                || content_type().is_compatible(other_array.content_type()) != TypeConsistency::EQUALS)
+                || content_type().kind() != other_array.content_type().kind())
         {
             for (uint32_t i = 0; i < min_dimension; i++)
             {
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 0e7f7bc..62ae42d 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -273,7 +273,7 @@ private:
         }
 
         if (content_->is_constructed_type()
-                || content_->is_compatible(*other.content_) != TypeConsistency::EQUALS)
+                || content_->kind() != other.content_->kind())
         {
             for (uint32_t i = 0; i < min_size; i++)
             {
-- 
2.43.0


From 280fbed9893eda468e0f4c89ebbb43f5ade328d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 14/44] fix: assigning a data to itself, or a data of another
 type through a reference, corrupts memory

---
 include/xtypes/DynamicData.hpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 5dc1131..4b9a5d7 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -819,8 +819,10 @@ public:
     WritableDynamicDataRef& operator = (
             const WritableDynamicDataRef& other)
     {
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
+                "Cannot assign data of type '" << other.type().name() << "' to data of type '"
+                                               << type_->name() << "'.");
+        assign_instance(other);
         return *this;
     }
 
@@ -1020,6 +1022,11 @@ public:
                     "Trying to set an invalid value for enumerated type '" << type_->name() << "'.");
         }
 
+        if (instance_ == reinterpret_cast<const uint8_t*>(&t)) // assigning its own value
+        {
+            return;
+        }
+
         type_->destroy_instance(instance_);
         type_->copy_instance(instance_, reinterpret_cast<const uint8_t*>(&t));
     }
@@ -1297,6 +1304,16 @@ protected:
     {
     }
 
+    /// \brief Replaces the managed instance by a copy of another one, which can be (part of) the managed one.
+    void assign_instance(
+            const ReadableDynamicDataRef& other)
+    {
+        std::unique_ptr<uint8_t[]> copy(new uint8_t[type_->memory_size()]());
+        type_->copy_instance_from_type(copy.get(), p_instance(other), other.type());
+        type_->move_instance(instance_, copy.get(), true);
+        type_->destroy_instance(copy.get());
+    }
+
     /// \brief Internal cast from readable to writable
     WritableDynamicDataRef(
             const ReadableDynamicDataRef& other)
@@ -1390,8 +1407,7 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        assign_instance(other);
         return *this;
     }
 
@@ -1402,8 +1418,7 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        assign_instance(other);
         return *this;
     }
 
-- 
2.43.0


From 1fbf7a7e2c248447a0c76ca93d02ff70a165e4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 15/44] fix: a refused conversion leaks the memory of the new
 data

---
 include/xtypes/DynamicData.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 4b9a5d7..d652bd4 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1370,13 +1370,14 @@ public:
     DynamicData(
             const ReadableDynamicDataRef& other,
             const DynamicType& type)
-        : WritableDynamicDataRef(type, new uint8_t[type.memory_size()])
+        : WritableDynamicDataRef(type, nullptr)
     {
         xtypes_assert(type_->is_compatible(other.type()) != TypeConsistency::NONE,
                 "Incompatible types in DynamicData(const ReadableDynamicDataRef&, const DynamicType&): '"
                 << type_->name() << "' isn't compatible with '" << other.type().name() << "'.");
-        memset(instance_, 0, type.memory_size());
-        type_->copy_instance_from_type(instance_, p_instance(other), other.type());
+        std::unique_ptr<uint8_t[]> memory(new uint8_t[type.memory_size()]());
+        type_->copy_instance_from_type(memory.get(), p_instance(other), other.type());
+        instance_ = memory.release();
         initialize_ = true;
     }
 
-- 
2.43.0


From a81a016aa0ae4a11fe8369e6a522bbfdf56b7d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 16/44] fix: conversion of a structure into a one-member
 structure compatible with it throws

---
 include/xtypes/StructType.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index 6ee3ca1..764a73b 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -121,7 +121,9 @@ public:
 
         if (members().size() == 1) // Resolve one-member struct compatibility
         {
-            if (other.kind() != TypeKind::STRUCTURE_TYPE)
+            if (other.kind() != TypeKind::STRUCTURE_TYPE
+                    || (static_cast<const StructType&>(other).members().size() != 1
+                    && members().at(0).type().is_compatible(other) != TypeConsistency::NONE))
             {
                 members().at(0).type().copy_instance_from_type(target, source, other);
                 return;
-- 
2.43.0


From 70bab64a3587cc38f57dbe0c08e31267a8e59d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 17/44] fix: a converted map keeps using the content type of
 its source

---
 include/xtypes/MapInstance.hpp | 28 ++++++++++++++++++++--------
 include/xtypes/MapType.hpp     |  5 ++++-
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index e1d17e3..c58db36 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -74,21 +74,33 @@ public:
 
     /// \brief Copy constructor from a MapInstance with other but compatible content.
     /// \param[in] other Map from copy the values.
+    /// \param[in] content Content of the map
     /// \param[in] bounds Max copied elements.
     /// \pre content and other.content compatibles (see dds::core::xtypes::DynamicType::is_compatible())
     MapInstance(
             const MapInstance& other,
+            const PairType& content,
             uint32_t bounds)
-        : content_(other.content_)
-        , block_size_(content_->memory_size())
-        , capacity_(bounds == 0 ? other.capacity_ : std::min(other.capacity_, bounds))
-        , size_(bounds == 0 ? other.size_ : std::min(other.size_, bounds))
+        : MapInstance(content, bounds)
     {
-        init_memory(memory_, capacity_);
-
-        if (memory_ != nullptr)
+        // The order depends on the hash of the converted keys, so the pairs are inserted one by one
+        const DynamicType& first = content_->first();
+        const DynamicType& second = content_->second();
+        std::unique_ptr<uint8_t[]> key(new uint8_t[first.memory_size()]());
+        for (uint32_t i = 0; i < other.size_ && (bounds == 0 || size_ < bounds); i++)
         {
-            copy_content(other, size_);
+            const uint8_t* source = other.get_element(i);
+            first.copy_instance_from_type(key.get(), source, other.content_->first());
+            if (!contains_key(key.get()))
+            {
+                uint8_t* value = insert(key.get(), bounds) + first.memory_size();
+                second.destroy_instance(value);
+                second.copy_instance_from_type(
+                    value,
+                    source + other.content_->first().memory_size(),
+                    other.content_->second());
+            }
+            first.destroy_instance(key.get());
         }
     }
 
diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index 59dec95..31f9280 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -115,7 +115,10 @@ public:
             "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
 
         (void) other;
-        new (target) MapInstance(*reinterpret_cast<const MapInstance*>(source), bounds());
+        new (target) MapInstance(
+            *reinterpret_cast<const MapInstance*>(source),
+            static_cast<const PairType&>(content_type()),
+            bounds());
     }
 
     virtual void move_instance(
-- 
2.43.0


From c744a1a543b61382f60a761eadd97f9ea6902ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 18/44] fix: a union without selected member cannot be copied

---
 include/xtypes/UnionType.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 65ba758..84bf9ea 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -275,9 +275,11 @@ public:
     {
         disc()->type().copy_instance(target, source);
         int64_t label = current_label(disc()->type(), source);
-        xtypes_assert(labels_.count(label) != 0, "Stored label in source is invalid");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-        member->type().copy_instance(target + member->offset(), source + member->offset());
+        if (0 < labels_.count(label)) // otherwise, there isn't a selected member to copy
+        {
+            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
+            member->type().copy_instance(target + member->offset(), source + member->offset());
+        }
     }
 
     virtual void copy_instance_from_type(
-- 
2.43.0


From f772d7afed52f04c9d5a48a3eb7910dc625bafd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 19/44] fix: conversion of unions reads the source with the
 layout of the target

---
 include/xtypes/UnionType.hpp | 54 ++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 84bf9ea..8c81712 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -285,34 +285,58 @@ public:
     virtual void copy_instance_from_type(
             uint8_t* target,
             const uint8_t* source,
-            const DynamicType& other) const override
+            const DynamicType& arg_other) const override
     {
-        if (other.kind() == TypeKind::ALIAS_TYPE)
-        {
-            [[maybe_unused]] const AliasType& alias = static_cast<const AliasType&>(other);
+        const DynamicType& other = (arg_other.kind() == TypeKind::ALIAS_TYPE)
+                ? static_cast<const AliasType&>(arg_other).rget()
+                : arg_other;
 
-            xtypes_assert(alias.rget().kind() == TypeKind::UNION_TYPE,
-                    "Cannot copy data from different types: From '" << alias.rget().name() << "' to '" << name() <<
-                    "'.");
-        }
-        else
+        if (other.kind() == TypeKind::STRUCTURE_TYPE)
         {
-            xtypes_assert(other.kind() == TypeKind::UNION_TYPE,
-                    "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
+            // Resolve one-member struct compatibility
+            const StructType& struct_type = static_cast<const StructType&>(other);
+            if (struct_type.members().size() == 1)
+            {
+                copy_instance_from_type(target, source, struct_type.members().at(0).type());
+                return;
+            }
         }
+
+        xtypes_assert(other.kind() == TypeKind::UNION_TYPE,
+                "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
         const UnionType& other_union = static_cast<const UnionType&>(other);
 
         Member* disc_ = disc();
         disc_->type().copy_instance_from_type(target, source, other_union.disc()->type());
 
+        int64_t other_label = current_label(other_union.disc()->type(), source);
+        if (0 == other_union.labels_.count(other_label)) // the source doesn't have a selected member
+        {
+            current_label(target, invalid_value_);
+            return;
+        }
+
+        if (other_label == other_union.default_value_ && default_ != invalid_value_) // implicit default label
+        {
+            current_label(target, default_);
+        }
+
         int64_t label = current_label(disc_->type(), target);
         if (0 < labels_.count(label))
         {
             Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-            member->type().copy_instance_from_type(
-                target + member->offset(),
-                source + member->offset(),
-                member->type());
+            const Member& other_member = other_union.member(other_union.labels_.at(other_label));
+            if (member->type().is_compatible(other_member.type()) != TypeConsistency::NONE)
+            {
+                member->type().copy_instance_from_type(
+                    target + member->offset(),
+                    source + other_member.offset(),
+                    other_member.type());
+            }
+            else // The label selects an unrelated member
+            {
+                member->type().construct_instance(target + member->offset());
+            }
         }
     }
 
-- 
2.43.0


From be22b1b1028f79b2f87fe93d8b235d5c3651ab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 20/44] fix: moving a union over another one destroys a member
 that was not selected

---
 include/xtypes/UnionType.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 8c81712..7e6e921 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -345,13 +345,17 @@ public:
             uint8_t* source,
             bool initialized) const override
     {
-        disc()->type().move_instance(target, source, initialized);
+        if (initialized)
+        {
+            destroy_instance(target); // its selected member can be other one
+        }
+        disc()->type().move_instance(target, source, false);
         int64_t label = current_label(disc()->type(), target);
         if (0 < labels_.count(label))
         {
             Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             member->type().move_instance(target + member->offset(),
-                    source + member->offset(), initialized);
+                    source + member->offset(), false);
         }
     }
 
-- 
2.43.0


From c907156ea5e8e74e55bdeacaf4e06b705301076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 21/44] fix: traversal of a union without selected member
 throws

---
 include/xtypes/UnionType.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 7e6e921..76b336c 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -452,10 +452,12 @@ public:
     {
         int64_t disc_value = current_label(disc()->type(), node.instance);
 
-        xtypes_assert(0 < labels_.count(disc_value),
-                "UnionType '" << name() << "' doesn't have a case member selected.");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(disc_value)));
         visitor(node);
+        if (0 == labels_.count(disc_value)) // there isn't a selected member to visit
+        {
+            return;
+        }
+        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(disc_value)));
         InstanceNode child(
             node,
             member->type(),
-- 
2.43.0


From 9f761a0bc1877b7c33f038b58c652c156dfb7c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 22/44] fix: hash of a union ignores its selected member

---
 include/xtypes/UnionType.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 76b336c..cce715f 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -483,9 +483,10 @@ public:
             const uint8_t* instance) const override
     {
         uint64_t h = disc()->type().hash(instance);
-        if (0 < labels_.count(h))
+        int64_t label = current_label(disc()->type(), instance);
+        if (0 < labels_.count(label))
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(h)));
+            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             Instanceable::hash_combine(h, member->type().hash(instance + member->offset()));
         }
         return h;
-- 
2.43.0


From 40ff9fd5e9ec1e20dd4359f6a1e7c105c4bce0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 23/44] fix: a refused case member of a union is added, and the
 label used for no selection is accepted

---
 include/xtypes/UnionType.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index cce715f..d5ebba2 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -96,6 +96,7 @@ public:
         static_assert (std::is_integral<T>::value, "Only 'integral' types are allowed.");
         xtypes_assert(is_default || !labels.empty(), "Cannot add a non default case member without labels.");
         xtypes_assert(UNION_DISCRIMINATOR != member.name(), "Case member name 'discriminator' is reserved.");
+        xtypes_assert(!is_default || default_ == invalid_value_, "Cannot set more than one case member as default.");
         // Check labels
         for (T label : labels)
         {
@@ -137,7 +138,6 @@ public:
 
         if (is_default)
         {
-            xtypes_assert(default_ == invalid_value_, "Cannot set more than one case member as default.");
             default_ = first_label;
             if (default_ == default_value_)
             {
@@ -537,7 +537,7 @@ protected:
     void check_label_value(
          [[maybe_unused]] int64_t label)
     {
-        xtypes_assert(label != default_value_, "Label '" << label << "' is reserved.");
+        xtypes_assert(label != default_value_ && label != invalid_value_, "Label '" << label << "' is reserved.");
         DynamicType* type = &const_cast<DynamicType&>(disc()->type());
 
         if (type->kind() == TypeKind::ALIAS_TYPE)
-- 
2.43.0


From 926b1ed5db182f5a3a29c376e032c834344be496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 24/44] fix: writing the discriminator of a union accepts
 unknown labels, refuses negative ones and selects members without
 constructing them

---
 include/xtypes/UnionType.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index d5ebba2..e60b498 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -887,9 +887,10 @@ protected:
             uint8_t* instance,
             int64_t value) const
     {
-        if (labels_.count(value) == 0 &&
-                default_ == invalid_value_)
+        value = shrink_label(value, disc()->type().memory_size());
+        if (labels_.count(value) == 0)
         {
+            xtypes_assert(false, "Value '" << value << "' isn't a label of the UnionType '" << name() << "'.");
             return false;
         }
 
@@ -904,6 +905,12 @@ protected:
             return false;
         }
 
+        if (0 == labels_.count(current_value)) // The label selects a member for the first time
+        {
+            const Member& selected = member(labels_.at(value));
+            selected.type().construct_instance(instance + selected.offset());
+        }
+
         current_label(instance, value);
         return true;
     }
-- 
2.43.0


From f34c2762a41a800fdfe8e86088c099f332b7d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 25/44] fix: reading the selected member of a union changes its
 discriminator

---
 include/xtypes/UnionType.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index e60b498..c234419 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -920,6 +920,12 @@ protected:
             uint8_t* instance,
             const std::string& case_member_name)
     {
+        int64_t label = current_label(disc()->type(), instance);
+        if (0 < labels_.count(label) && labels_.at(label) == case_member_name)
+        {
+            return true; // Already selected: keep the label
+        }
+
         for (const auto& pair : labels_)
         {
             Member* member = &const_cast<Member&>(AggregationType::member(pair.second));
-- 
2.43.0


From 136d450966f588a924d07f80d4c665d1b6491645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 26/44] fix: unions discriminated by 8 or 16 bits enumerations
 (or aliases of enumerations) access them as 32 bits ones

---
 include/xtypes/UnionType.hpp | 50 ++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index c234419..af4bf4b 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -548,9 +548,15 @@ protected:
 
         if (type->kind() == TypeKind::ENUMERATION_TYPE)
         {
-            [[maybe_unused]] EnumerationType<uint32_t>* enum_type = static_cast<EnumerationType<uint32_t>*>(type);
+            // The underlying type of the enumeration is determined by its size
+            [[maybe_unused]] bool allowed =
+                    type->memory_size() == sizeof(uint8_t)
+                    ? static_cast<EnumerationType<uint8_t>*>(type)->is_allowed_value(label)
+                    : type->memory_size() == sizeof(uint16_t)
+                    ? static_cast<EnumerationType<uint16_t>*>(type)->is_allowed_value(label)
+                    : static_cast<EnumerationType<uint32_t>*>(type)->is_allowed_value(label);
             xtypes_assert(
-                enum_type->is_allowed_value(label),
+                allowed,
                 "Value '" << label << "' isn't allowed by the discriminator enumeration '" << type->name() << "'");
         }
     }
@@ -648,9 +654,7 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t lvalue = *reinterpret_cast<uint32_t*>(label_instance);
-                int64_t new_value = static_cast<int64_t>(lvalue);
+                int64_t new_value = current_label(type, static_cast<const uint8_t*>(label_instance));
                 current_label(instance, new_value);
             }
             break;
@@ -761,10 +765,19 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t lvalue = static_cast<uint32_t>(new_value);
-                uint32_t& value = *reinterpret_cast<uint32_t*>(instance);
-                value = lvalue;
+                // The underlying type of the enumeration is determined by its size
+                if (disc_->type().memory_size() == sizeof(uint8_t))
+                {
+                    *reinterpret_cast<uint8_t*>(instance) = static_cast<uint8_t>(new_value);
+                }
+                else if (disc_->type().memory_size() == sizeof(uint16_t))
+                {
+                    *reinterpret_cast<uint16_t*>(instance) = static_cast<uint16_t>(new_value);
+                }
+                else
+                {
+                    *reinterpret_cast<uint32_t*>(instance) = static_cast<uint32_t>(new_value);
+                }
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -855,8 +868,12 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t value = *reinterpret_cast<const uint32_t*>(instance);
+                // The underlying type of the enumeration is determined by its size
+                uint32_t value = type.memory_size() == sizeof(uint8_t)
+                        ? *reinterpret_cast<const uint8_t*>(instance)
+                        : type.memory_size() == sizeof(uint16_t)
+                        ? *reinterpret_cast<const uint16_t*>(instance)
+                        : *reinterpret_cast<const uint32_t*>(instance);
                 disc_value = shrink_label(value, type.memory_size());
             }
             break;
@@ -1157,9 +1174,14 @@ protected:
                             if (new_s.find("*") != std::string::npos)
                             {
                                 // Get the Enum value
-                                const EnumerationType<uint32_t>& enum_type =
-                                        static_cast<const EnumerationType<uint32_t>&>(disc_->type());
-                                value = enum_type.value(label);
+                                const DynamicType& enum_type = disc_->type().kind() == TypeKind::ALIAS_TYPE
+                                        ? static_cast<const AliasType&>(disc_->type()).rget()
+                                        : disc_->type();
+                                value = enum_type.memory_size() == sizeof(uint8_t)
+                                        ? static_cast<const EnumerationType<uint8_t>&>(enum_type).value(label)
+                                        : enum_type.memory_size() == sizeof(uint16_t)
+                                        ? static_cast<const EnumerationType<uint16_t>&>(enum_type).value(label)
+                                        : static_cast<const EnumerationType<uint32_t>&>(enum_type).value(label);
                             }
                         }
                         result.emplace_back(static_cast<int64_t>(value));
-- 
2.43.0


From 6cad87a5febe7cb7d583b099c1df651390bd88b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 27/44] fix: string conversion appends unwritten characters and
 never ends if the last character is incomplete

---
 include/xtypes/StringConversion.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/StringConversion.hpp b/include/xtypes/StringConversion.hpp
index 91d495e..d23f207 100644
--- a/include/xtypes/StringConversion.hpp
+++ b/include/xtypes/StringConversion.hpp
@@ -105,6 +105,7 @@ std::basic_string<out> code_conversion_tool(const std::basic_string_view<in>& in
     // iterate if buffer gets filled
     while (processing)
     {
+        const in* from_previous = from_next;
         codecvt_base::result res = choose::translate(
              conv_facet,
              mb,
@@ -129,8 +130,12 @@ std::basic_string<out> code_conversion_tool(const std::basic_string_view<in>& in
                 }
                 [[fallthrough]];
             case codecvt_base::partial:
-                // insert current buffer content
-                output.append(buffer, buffer_size);
+                // insert current buffer content, that may be not completely filled
+                output.append(buffer, to_next - buffer);
+                if (from_next == from_previous && to_next == buffer)
+                {
+                    throw std::range_error("encountered an incomplete character");
+                }
                 break;
 
             case codecvt_base::error:
-- 
2.43.0


From 7b399e5359575b1c3dbddf9612470458f213c9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 28/44] fix: to_string() of wide characters throws

---
 include/xtypes/DynamicDataImpl.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index 02fd2a6..60a9a2c 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -144,8 +144,15 @@ inline std::string ReadableDynamicDataRef::to_string() const
             case TypeKind::CHAR_8_TYPE:
                 ss << "<" << type_name << ">  " << node.data().value<char>();
                 break;
-            case TypeKind::CHAR_16_TYPE:
             case TypeKind::WIDE_CHAR_TYPE:
+                {
+                    ss << "<" << type_name << ">  ";
+                    auto aux = code_conversion_tool<XTYPES_CHAR>(
+                        std::u16string(1, static_cast<char16_t>(node.data().value<wchar_t>())));
+                    ss << std::string(aux.begin(), aux.end());
+                    break;
+                }
+            case TypeKind::CHAR_16_TYPE:
                 {
                     ss << "<" << type_name << ">  ";
                     auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, node.data().value<char16_t>()));
-- 
2.43.0


From 7ea7a008d185b5a37eca287b517eabbf3a250c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 29/44] fix: assignment of iterators mixes types and instances

---
 include/xtypes/DynamicData.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index d652bd4..e0fb67e 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -439,6 +439,7 @@ public:
         Iterator& operator = (
                 const Iterator& other)
         {
+            type_ = other.type_;
             instance_ = other.instance_;
             index_ = other.index_;
             return *this;
-- 
2.43.0


From 1442951230e270c4f59ba5a40262baa1d32e6dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 30/44] fix: as_vector() of an empty collection throws

---
 include/xtypes/DynamicData.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index e0fb67e..abde5e0 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -324,6 +324,11 @@ public:
                 "as_vector<" << PrimitiveTypeKindTrait<T>::name << ">() isn't available for type '"
                              << type_->name() << "'.");
 
+        if (size() == 0)
+        {
+            return std::vector<T>();
+        }
+
         const T* location = reinterpret_cast<T*>(collection.get_instance_at(instance_, 0));
         return std::vector<T>(location, location + size());
     }
-- 
2.43.0


From 0ec4f9e0fcf98d86fea771f26ea24a699829f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 31/44] fix: elements and keys of other types are used as if
 they were of the type of the collection

---
 include/xtypes/DynamicData.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index abde5e0..4d84269 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -251,6 +251,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
+        xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
         uint8_t* instance = map.get_instance_at(instance_, data.instance_);
         xtypes_assert(instance != nullptr, "MapType '" << type_->name() << "' doesn't contains the requested key.");
         return ReadableDynamicDataRef(pair.second(), instance + pair.first().memory_size());
@@ -950,6 +951,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
+        xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
         uint8_t* instance = map.get_instance_at(instance_, p_instance(data));
         if (instance == nullptr)
         {
@@ -1072,6 +1074,8 @@ public:
         xtypes_assert(type_->kind() == TypeKind::SEQUENCE_TYPE,
                 "push() is only available for sequence types but called for '" << type_->name() << "'.");
         const SequenceType& sequence = static_cast<const SequenceType&>(*type_);
+        xtypes_assert(sequence.content_type().is_compatible(data.type()) == TypeConsistency::EQUALS,
+                "Cannot push data of type '" << data.type().name() << "' into '" << type_->name() << "'.");
 
         uint8_t* element = sequence.push_instance(instance_, p_instance(data));
         xtypes_assert(element != nullptr, "Bound limit reached while pushing value."); (void) element;
-- 
2.43.0


From d1b841637050e8778f0543a8173ae80d050c554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 32/44] fix: insert() of a pair into a map drops its value, and
 throws if the key exists

---
 include/xtypes/DynamicData.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 4d84269..4ac4b82 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -986,7 +986,20 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         xtypes_assert(map.content_type().is_compatible(data.type()) == TypeConsistency::EQUALS, "Types doesn't match");
-        return map.insert_instance(instance_, p_instance(data)) != nullptr;
+        if (map.has_key(instance_, p_instance(data)))
+        {
+            return false;
+        }
+        uint8_t* place = map.insert_instance(instance_, p_instance(data));
+        if (place == nullptr)
+        {
+            return false;
+        }
+        const PairType& pair = static_cast<const PairType&>(map.content_type());
+        const size_t value_offset = pair.first().memory_size();
+        pair.second().destroy_instance(place + value_offset);
+        pair.second().copy_instance(place + value_offset, p_instance(data) + value_offset);
+        return true;
     }
 
     /// \brief checks if a key is contained in the map represented by the DynamicData.
-- 
2.43.0


From b6736211d8d63d1ec6c43e1030c7b779071cf17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 33/44] fix: a scoped name resolves to symbols out of its scope

---
 include/xtypes/idl/Module.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 864ff06..563c134 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -759,7 +759,7 @@ protected:
             return std::make_pair<const Module*, std::string>(this, std::move(name));
         }
 
-        if (outer_ != nullptr)
+        if (outer_ != nullptr && first) // The last part of a scoped name is only looked for in its scope
         {
             return outer_->resolve_scope(symbol_name, original_name, true);
         }
-- 
2.43.0


From 8c910ec78c62af854c2797113fb061cd0ae66f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 34/44] fix: looking for a type or module that doesn't exist
 dereferences or stores null pointers

---
 include/xtypes/idl/Module.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 563c134..2c9d173 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -68,7 +68,8 @@ public:
     std::shared_ptr<Module> submodule(
             const std::string& submodule)
     {
-        return inner_[submodule];
+        auto it = inner_.find(submodule);
+        return (it != inner_.end()) ? it->second : nullptr;
     }
 
     size_t submodule_size()
@@ -116,7 +117,7 @@ public:
     Module& operator [] (
             const std::string& submodule)
     {
-        return *inner_[submodule];
+        return *inner_.at(submodule);
     }
 
     const Module& operator [] (
@@ -485,7 +486,13 @@ public:
     bool has_enum_32(
             const std::string& name) const
     {
-        return enumerations_32_.count(name) > 0;
+        // Solve scope
+        PairModuleSymbol module = resolve_scope(name);
+        if (module.first == nullptr)
+        {
+            return false;
+        }
+        return module.first->enumerations_32_.count(module.second) > 0;
     }
 
     const EnumerationType<uint32_t>& enum_32(
@@ -603,7 +610,8 @@ public:
         {
             for (auto [key, mod]: inner_)
             {
-                ret_type = mod.get()->type(name, recursive);
+                DynamicType::Ptr inner_type = mod.get()->type(name, recursive);
+                ret_type = (inner_type.get() != nullptr) ? inner_type : ret_type;
             }
         }
 
@@ -638,7 +646,7 @@ public:
             ret_type = module.first->aliases_.at(module.second).get();
         }
 
-        if (name.find("::") == 0)
+        if (name.find("::") == 0 && ret_type.get() != nullptr)
         {
             // Scope ambiguity solver was originally used, add it to the retrieved DynamicType
             ret_type->name(name);
-- 
2.43.0


From 8f90ff6d90f4db9aafc01dff32e6c6699c981160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 35/44] fix: an entity can be added to a module under a name
 already taken by other kind of entity

---
 include/xtypes/idl/Module.hpp | 42 ++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 2c9d173..1d06096 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -226,6 +226,11 @@ public:
         }
 
         std::string name = struct_type.name();
+        if (has_symbol(name, false))
+        {
+            return false; // The name is already taken in this module.
+        }
+
         std::string name_space = scope();
         struct_type.name(name_space + (name_space.empty() ? "" : "::") + name);
         auto result = structs_.emplace(
@@ -253,6 +258,11 @@ public:
         }
 
         std::string name = struct_type.name();
+        if (has_symbol(name, false))
+        {
+            return false; // The name is already taken in this module.
+        }
+
         std::string name_space = scope();
         struct_type.name(name_space + (name_space.empty() ? "" : "::") + name);
         auto result = structs_.emplace(
@@ -310,6 +320,11 @@ public:
         }
 
         std::string name = union_type.name();
+        if (has_symbol(name, false))
+        {
+            return false; // The name is already taken in this module.
+        }
+
         std::string name_space = scope();
         union_type.name(name_space + (name_space.empty() ? "" : "::") + name);
         auto result = unions_.emplace(
@@ -337,6 +352,11 @@ public:
         }
 
         std::string name = union_type.name();
+        if (has_symbol(name, false))
+        {
+            return false; // The name is already taken in this module.
+        }
+
         std::string name_space = scope();
         union_type.name(name_space + (name_space.empty() ? "" : "::") + name);
         auto result = unions_.emplace(
@@ -455,6 +475,11 @@ public:
             }
         }
 
+        if (has_symbol(name, false))
+        {
+            return false; // The name is already taken in this module.
+        }
+
         auto inserted = constants_types_.emplace(name, Type(*this, value.type()));
         if (inserted.second)
         {
@@ -527,6 +552,11 @@ public:
         }
 
         std::string name = enumeration.name();
+        if (has_symbol(name, false))
+        {
+            return false; // The name is already taken in this module.
+        }
+
         std::string name_space = scope();
         enumeration.name(name_space + (name_space.empty() ? "" : "::") + name);
         auto result = enumerations_32_.emplace(name, Type(*this, std::move(enumeration)));
@@ -571,7 +601,7 @@ public:
             const DynamicType::Ptr&& type,
             const std::string& name)
     {
-        if (name.find("::") != std::string::npos || has_alias(name))
+        if (name.find("::") != std::string::npos || has_symbol(name, false))
         {
             return false; // Cannot define alias with scoped name (or already defined).
         }
@@ -585,6 +615,11 @@ public:
             AliasType& alias)
     {
         std::string name = alias.name();
+        if (name.find("::") != std::string::npos || has_symbol(name, false))
+        {
+            return false; // Cannot add a symbol with scoped name (or already defined).
+        }
+
         std::string name_space = scope();
         alias.name(name_space + (name_space.empty() ? "" : "::") + name);
         return aliases_.emplace(name, Type(*this, AliasType(alias))).second;
@@ -594,6 +629,11 @@ public:
             AliasType&& alias)
     {
         std::string name = alias.name();
+        if (name.find("::") != std::string::npos || has_symbol(name, false))
+        {
+            return false; // Cannot add a symbol with scoped name (or already defined).
+        }
+
         std::string name_space = scope();
         alias.name(name_space + (name_space.empty() ? "" : "::") + name);
         return aliases_.emplace(name, Type(*this, std::move(alias))).second;
-- 
2.43.0


From ab111bc09982725ba0a067422b266f4418476b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 36/44] fix: conversion of a structure into one with two or
 more additional members reads past its members

---
 include/xtypes/StructType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index 764a73b..e6cfbc4 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -144,12 +144,12 @@ public:
                     target + member.offset(),
                     source + other_member->offset(),
                     other_member->type());
+                other_member++;
             }
             else
             {
                 member.type().construct_instance(target + member.offset());
             }
-            other_member++;
         }
     }
 
-- 
2.43.0


From a47cd7580fb21345d4e15ecb52e8332c7f676ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 37/44] fix: floating-point values of the same size are
 accepted as (garbage) values of an enumeration

---
 include/xtypes/DynamicData.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 4ac4b82..0275d8f 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -140,7 +140,7 @@ public:
 
         if (type_->is_enumerated_type())
         {
-            xtypes_assert(type_->memory_size() == sizeof(T),
+            xtypes_assert(std::is_integral<T>::value && type_->memory_size() == sizeof(T),
                     "Incompatible types: '" << type_->name() << "' and '"
                                             << PrimitiveTypeKindTrait<T>::name << "'.");
         }
@@ -1035,7 +1035,7 @@ public:
 
         if (type_->is_enumerated_type())
         {
-            xtypes_assert(type_->memory_size() == sizeof(T),
+            xtypes_assert(std::is_integral<T>::value && type_->memory_size() == sizeof(T),
                     "Incompatible types: '" << type_->name() << "' and '"
                                             << PrimitiveTypeKindTrait<T>::name << "'.");
             [[maybe_unused]] const EnumeratedType<T>& enum_type = static_cast<const EnumeratedType<T>&>(*type_);
-- 
2.43.0


From d8a8a9b66b3d37299a949763461742281e7528e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 38/44] fix: conversion between pairs whose first types have
 different sizes reads the second at the wrong place

---
 include/xtypes/PairType.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index ba59729..5115e5f 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -126,7 +126,8 @@ public:
 
         const PairType& pair = static_cast<const PairType&>(other);
         first_->copy_instance_from_type(target, source, pair.first());
-        second_->copy_instance_from_type(target + first_->memory_size(), source + first_->memory_size(), pair.second());
+        second_->copy_instance_from_type(
+            target + first_->memory_size(), source + pair.first().memory_size(), pair.second());
     }
 
     void move_instance(
-- 
2.43.0


From a40c0b6bd81a36a8996ff06daa5ba7cea551ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 39/44] fix: a temporary data passed as a reference by value is
 never destroyed

---
 include/xtypes/DynamicData.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 0275d8f..fa717d1 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -68,12 +68,12 @@ public:
 
     ReadableDynamicDataRef(const ReadableDynamicDataRef& other) = default;
 
+    // The moved one can be a DynamicData passed as a reference, which still has to destroy its instance
     ReadableDynamicDataRef(ReadableDynamicDataRef&& other)
-        : type_(std::move(other.type_))
+        : type_(other.type_)
         , instance_(other.instance_)
         , initialize_(other.initialize_)
     {
-        other.initialize_ = false;
     }
 
     virtual ~ReadableDynamicDataRef() = default;
-- 
2.43.0


From ce2bfc5e1b5c8559c767a30657bf2c9b2048f3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:17 +0000
Subject: [PATCH 40/44] fix: no shift by a negative amount in the default label
 of a union for discriminators larger than 64 bits

---
 include/xtypes/UnionType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index af4bf4b..87f9602 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -42,7 +42,7 @@ static const std::string UNION_DISCRIMINATOR("discriminator");
 constexpr int64_t default_union_label(
         size_t type_size)
 {
-    return std::numeric_limits<int64_t>::max() >> ((sizeof(int64_t) - type_size) * 8);
+    return std::numeric_limits<int64_t>::max() >> (type_size < sizeof(int64_t) ? (sizeof(int64_t) - type_size) * 8 : 0);
 }
 
 template<typename T>
-- 
2.43.0


From db3cff3e00ec13b8422cba5f7163827700dc4f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:55 +0000
Subject: [PATCH 41/44] fix: the scope of a module is computed once per level
 (its cost doubled with every level)

---
 include/xtypes/idl/Module.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 1d06096..e115506 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -133,9 +133,13 @@ public:
 
     std::string scope() const
     {
-        if (outer_ != nullptr && !outer_->scope().empty())
+        if (outer_ != nullptr)
         {
-            return outer_->scope() + "::" + name_;
+            const std::string outer_scope = outer_->scope();
+            if (!outer_scope.empty())
+            {
+                return outer_scope + "::" + name_;
+            }
         }
         return name_;
     }
-- 
2.43.0


From 9b9bfeb143f7c2b020004c0033ec387f3fe7663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:48 +0000
Subject: [PATCH 42/44] fix: a scoped name with an empty segment in the middle
 sent Module::resolve_scope into endless recursion

---
 include/xtypes/idl/Module.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index e115506..3769374 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -744,9 +744,9 @@ protected:
             const std::string& original_name,
             bool first = false) const
     {
-        if (!first && symbol_name == original_name)
+        if (!first && (symbol_name == original_name || symbol_name.find("::") == 0))
         {
-            // Loop trying to resolve the name. Abort failing.
+            // Loop trying to resolve the name, or empty scope in the middle of it. Abort failing.
             PairModuleSymbol pair;
             pair.first = nullptr;
             pair.second = original_name;
-- 
2.43.0


From a616041f5324f080ac3b211318be7d6a4c67c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:02 +0000
Subject: [PATCH 43/44] fix: resizing a sequence to a size of more than 32 bits
 wrote outside of its memory

---
 include/xtypes/DynamicData.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index fa717d1..b478b11 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -26,6 +26,7 @@
 #include <xtypes/AliasType.hpp>
 #include <xtypes/MapType.hpp>
 
+#include <limits>
 #include <ostream>
 
 namespace eprosima {
@@ -1111,6 +1112,8 @@ public:
         xtypes_assert(!bound || bound >= size,
                 "The desired size (" << size << ") is bigger than maximum allowed size for the type '"
                                      << type_->name() << "' (" << bounds() << ").");
+        xtypes_assert(size <= std::numeric_limits<uint32_t>::max(),
+                "The desired size (" << size << ") is bigger than the maximum size of a sequence.");
         const SequenceType& sequence = static_cast<const SequenceType&>(*type_);
         sequence.resize_instance(instance_, size);
         return *this;
-- 
2.43.0


From 01d1f404ec52b1b49a913dace1ab7f42c3b49d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:02 +0000
Subject: [PATCH 44/44] fix: collections whose capacity reaches 2^31 lost their
 memory when growing, and their elements were not destroyed

---
 include/xtypes/ArrayType.hpp        |  4 ++--
 include/xtypes/MapInstance.hpp      | 10 ++++++----
 include/xtypes/MapType.hpp          |  4 +++-
 include/xtypes/SequenceInstance.hpp | 10 ++++++----
 include/xtypes/SequenceType.hpp     |  4 +++-
 5 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index feae7d4..854caeb 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -207,9 +207,9 @@ public:
         if (content_type().is_constructed_type())
         {
             size_t block_size = content_type().memory_size();
-            for (int32_t i = dimension_ - 1; i >= 0; i--)
+            for (uint32_t i = dimension_; i > 0; i--)
             {
-                content_type().destroy_instance(instance + i * block_size);
+                content_type().destroy_instance(instance + (i - 1) * block_size);
             }
         }
     }
diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index c58db36..7f27e8e 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -21,6 +21,7 @@
 
 #include <cstdint>
 #include <cstring>
+#include <limits>
 #include <memory>
 
 namespace eprosima {
@@ -157,7 +158,7 @@ public:
 
         if (memory_ == nullptr || size_ == capacity_)
         {
-            realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+            realloc((capacity_ > 0) ? size_t(capacity_) * 2 : 1, bounds);
         }
 
         uint8_t* place = create_place(key.get());
@@ -237,7 +238,8 @@ private:
             size_t desired_capacity,
             uint32_t bounds)
     {
-        size_t new_capacity = bounds == 0 ? desired_capacity : std::min(desired_capacity, size_t(bounds));
+        size_t max_capacity = bounds == 0 ? std::numeric_limits<uint32_t>::max() : bounds;
+        size_t new_capacity = std::min(desired_capacity, max_capacity);
         uint8_t* new_memory = nullptr;
         init_memory(new_memory, new_capacity);
 
@@ -477,9 +479,9 @@ private:
         {
             if (content_->is_constructed_type())
             {
-                for (int32_t i = capacity_ - 1; i >= 0; i--)
+                for (uint32_t i = capacity_; i > 0; i--)
                 {
-                    content_->destroy_instance(memory_ + i * block_size_);
+                    content_->destroy_instance(memory_ + (i - 1) * block_size_);
                 }
             }
 
diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index 31f9280..3541946 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -22,6 +22,7 @@
 #include <xtypes/MapInstance.hpp>
 #include <xtypes/StructType.hpp>
 
+#include <limits>
 #include <vector>
 
 namespace eprosima {
@@ -229,7 +230,8 @@ public:
             uint8_t* instance,
             const uint8_t* key_instance) const
     {
-        if (get_instance_size(instance) < bounds() || bounds() == 0)
+        const size_t max_size = bounds() == 0 ? std::numeric_limits<uint32_t>::max() : bounds();
+        if (get_instance_size(instance) < max_size)
         {
             return reinterpret_cast<MapInstance*>(instance)->insert(key_instance, bounds());
         }
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 62ae42d..35d7fc3 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -21,6 +21,7 @@
 
 #include <cstdint>
 #include <cstring>
+#include <limits>
 
 namespace eprosima {
 namespace xtypes {
@@ -151,7 +152,7 @@ public:
             // The instance to push can be an element of this sequence: follow it to the new memory
             bool own = memory_ != nullptr && instance >= memory_ && instance < memory_ + size_ * block_size_;
             size_t own_offset = own ? size_t(instance - memory_) : 0;
-            realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+            realloc((capacity_ > 0) ? size_t(capacity_) * 2 : 1, bounds);
             instance = own ? memory_ + own_offset : instance;
         }
 
@@ -213,7 +214,8 @@ private:
             size_t desired_capacity,
             uint32_t bounds)
     {
-        size_t new_capacity = bounds == 0 ? desired_capacity : std::min(desired_capacity, size_t(bounds));
+        size_t max_capacity = bounds == 0 ? std::numeric_limits<uint32_t>::max() : bounds;
+        size_t new_capacity = std::min(desired_capacity, max_capacity);
         uint8_t* new_memory = nullptr;
         init_memory(new_memory, new_capacity);
 
@@ -317,9 +319,9 @@ private:
         {
             if (content_->is_constructed_type())
             {
-                for (int32_t i = capacity_ - 1; i >= 0; i--)
+                for (uint32_t i = capacity_; i > 0; i--)
                 {
-                    content_->destroy_instance(memory_ + i * block_size_);
+                    content_->destroy_instance(memory_ + (i - 1) * block_size_);
                 }
             }
 
diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index 3190c1e..a23ae2f 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -22,6 +22,7 @@
 #include <xtypes/SequenceInstance.hpp>
 #include <xtypes/StructType.hpp>
 
+#include <limits>
 #include <vector>
 
 namespace eprosima {
@@ -213,7 +214,8 @@ public:
             uint8_t* instance,
             const uint8_t* value) const
     {
-        if (get_instance_size(instance) < bounds() || bounds() == 0)
+        const size_t max_size = bounds() == 0 ? std::numeric_limits<uint32_t>::max() : bounds();
+        if (get_instance_size(instance) < max_size)
         {
             return reinterpret_cast<SequenceInstance*>(instance)->push(value, bounds());
         }
-- 
2.43.0

