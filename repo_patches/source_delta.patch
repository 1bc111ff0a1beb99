From 9f772862f6dfc41ba57a9c0ec5afb78dfc14e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 01/64] fix: sequences no longer construct elements over
 already constructed capacity (leak)

---
 include/xtypes/SequenceInstance.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 48779ec..f81b98c 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -242,11 +242,8 @@ private:
             memory = size > 0 ? new uint8_t[size * block_size_] : nullptr;
             if (memory != nullptr)
             {
+                // Only the elements below size_ are constructed, the rest of the capacity is raw memory.
                 memset(memory, 0, size * block_size_);
-                for (uint32_t idx = 0; idx < size; ++idx)
-                {
-                    content_->construct_instance(memory + idx * block_size_);
-                }
             }
         }
     }
@@ -271,6 +268,8 @@ private:
             min_size = std::min(min_size, bounds);
         }
 
+        size_ = 0; // Nothing is constructed yet
+
         if (memory_ == nullptr || // Unbounded sequences could reach this point without reserving memory yet.
                 min_size > capacity_)
         {
@@ -304,7 +303,7 @@ private:
             {
                 for (uint32_t i = 0; i < size_; i++)
                 {
-                    content_->move_instance(target + i * block_size_, source + i * block_size_, true);
+                    content_->move_instance(target + i * block_size_, source + i * block_size_, false);
                 }
             }
             else //optimization when the type is primitive
@@ -320,9 +319,9 @@ private:
         {
             if (content_->is_constructed_type())
             {
-                for (int32_t i = capacity_ - 1; i >= 0; i--)
+                for (uint32_t i = size_; i > 0; i--)
                 {
-                    content_->destroy_instance(memory_ + i * block_size_);
+                    content_->destroy_instance(memory_ + (i - 1) * block_size_);
                 }
             }
 
-- 
2.43.0


From 553a286b973d50dfc6f864e2bdbc956971fd3474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 02/64] fix: moving strings, sequences, maps and data moves the
 content and leaks nothing

---
 include/xtypes/DynamicData.hpp      |  1 -
 include/xtypes/MapInstance.hpp      | 13 ++++++++-----
 include/xtypes/MapType.hpp          |  2 +-
 include/xtypes/SequenceInstance.hpp | 13 ++++++++-----
 include/xtypes/SequenceType.hpp     |  2 +-
 include/xtypes/StringType.hpp       |  8 ++++++--
 6 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index de5d7fe..6015f21 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1377,7 +1377,6 @@ public:
     {
         memset(instance_, 0, other.type().memory_size());
         type_->move_instance(instance_, p_instance(other), false);
-        other.initialize_ = false;
     }
 
     /// \brief Assignment operator
diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 305c0c0..9ddd056 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -93,13 +93,16 @@ public:
 
     MapInstance(
             MapInstance&& other)
-        : content_(std::move(other.content_))
-        , block_size_(std::move(other.block_size_))
-        , capacity_(std::move(other.capacity_))
-        , memory_(std::move(other.memory_))
-        , size_(std::move(other.size_))
+        : content_(other.content_)
+        , block_size_(other.block_size_)
+        , capacity_(other.capacity_)
+        , memory_(other.memory_)
+        , size_(other.size_)
     {
+        // The moved instance is left empty, but usable.
         other.memory_ = nullptr;
+        other.capacity_ = 0;
+        other.size_ = 0;
     }
 
     /// \brief Deep equality operator
diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index d6bf866..59dec95 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -127,7 +127,7 @@ public:
         {
             destroy_instance(target);
         }
-        new (target) MapInstance(std::move(*reinterpret_cast<const MapInstance*>(source)));
+        new (target) MapInstance(std::move(*reinterpret_cast<MapInstance*>(source)));
     }
 
     virtual void destroy_instance(
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index f81b98c..9416c0d 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -104,13 +104,16 @@ public:
 
     SequenceInstance(
             SequenceInstance&& other)
-        : content_(std::move(other.content_))
-        , block_size_(std::move(other.block_size_))
-        , capacity_(std::move(other.capacity_))
-        , memory_(std::move(other.memory_))
-        , size_(std::move(other.size_))
+        : content_(other.content_)
+        , block_size_(other.block_size_)
+        , capacity_(other.capacity_)
+        , memory_(other.memory_)
+        , size_(other.size_)
     {
+        // The moved instance is left empty, but usable.
         other.memory_ = nullptr;
+        other.capacity_ = 0;
+        other.size_ = 0;
     }
 
     /// \brief Deep equality operator
diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index 84500a0..3be6830 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -121,7 +121,7 @@ public:
         {
             destroy_instance(target);
         }
-        new (target) SequenceInstance(std::move(*reinterpret_cast<const SequenceInstance*>(source)));
+        new (target) SequenceInstance(std::move(*reinterpret_cast<SequenceInstance*>(source)));
     }
 
     virtual void destroy_instance(
diff --git a/include/xtypes/StringType.hpp b/include/xtypes/StringType.hpp
index 382949b..dedfa0f 100644
--- a/include/xtypes/StringType.hpp
+++ b/include/xtypes/StringType.hpp
@@ -101,9 +101,13 @@ public:
     virtual void move_instance(
             uint8_t* target,
             uint8_t* source,
-            bool) const override
+            bool initialized) const override
     {
-        new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<const std::basic_string<CHAR_T>*>(source)));
+        if (initialized)
+        {
+            destroy_instance(target);
+        }
+        new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<std::basic_string<CHAR_T>*>(source)));
     }
 
     virtual void destroy_instance(
-- 
2.43.0


From 1638dfdd1285972de127bf81af0f4a0829501e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 03/64] fix: maps no longer construct entries over already
 constructed capacity (leak)

---
 include/xtypes/MapInstance.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 9ddd056..9f46ca6 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -247,11 +247,8 @@ private:
             memory = size > 0 ? new uint8_t[size * block_size_] : nullptr;
             if (memory != nullptr)
             {
+                // Only the elements below size_ are constructed, the rest of the capacity is raw memory.
                 memset(memory, 0, size * block_size_);
-                for (uint32_t idx = 0; idx < size; ++idx)
-                {
-                    content_->construct_instance(memory + idx * block_size_);
-                }
             }
         }
     }
@@ -277,6 +274,8 @@ private:
             min_size = std::min(min_size, bounds);
         }
 
+        size_ = 0; // Nothing is constructed yet
+
         if (memory_ == nullptr || // Unbounded maps could reach this point without reserving memory yet.
                 min_size > capacity_)
         {
@@ -318,7 +317,8 @@ private:
                     uint32_t to_move = size_ - get_key_index(source);
                     for (uint32_t i = to_move; i > 0; --i)
                     {
-                        content_->move_instance(target + (i - 1) * block_size_, source + (i - 1) * block_size_, true);
+                        content_->move_instance(target + (i - 1) * block_size_, source + (i - 1) * block_size_, false);
+                        content_->destroy_instance(source + (i - 1) * block_size_);
                     }
                 }
                 else
@@ -326,7 +326,7 @@ private:
                     // Moving full memory
                     for (uint32_t i = 0; i < size_; ++i)
                     {
-                        content_->move_instance(target + i * block_size_, source + i * block_size_, true);
+                        content_->move_instance(target + i * block_size_, source + i * block_size_, false);
                     }
                 }
             }
@@ -462,9 +462,9 @@ private:
         {
             if (content_->is_constructed_type())
             {
-                for (int32_t i = capacity_ - 1; i >= 0; i--)
+                for (uint32_t i = size_; i > 0; i--)
                 {
-                    content_->destroy_instance(memory_ + i * block_size_);
+                    content_->destroy_instance(memory_ + (i - 1) * block_size_);
                 }
             }
 
-- 
2.43.0


From 2ee1833adec52982c51a495766fdf3815163b13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 04/64] fix: pushing an element of a sequence into itself read
 released memory

---
 include/xtypes/SequenceInstance.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 9416c0d..20182ca 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -155,7 +155,14 @@ public:
     {
         if (memory_ == nullptr || size_ == capacity_)
         {
+            // The pushed instance may be part of this sequence: follow it when the content is moved.
+            const bool inner = memory_ != nullptr && instance >= memory_ && instance < memory_ + size_ * block_size_;
+            const size_t inner_offset = inner ? instance - memory_ : 0;
             realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+            if (inner)
+            {
+                instance = memory_ + inner_offset;
+            }
         }
 
         uint8_t* place = memory_ + size_ * block_size_;
-- 
2.43.0


From cd6980ae660e2af5482d924545e81d3d44f63a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 05/64] fix: inserting in a map a key that lives in the same
 map read released memory

---
 include/xtypes/MapInstance.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 9f46ca6..9f1f3ea 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -21,6 +21,7 @@
 
 #include <cstdint>
 #include <cstring>
+#include <vector>
 
 namespace eprosima {
 namespace xtypes {
@@ -143,13 +144,18 @@ public:
             const uint8_t* instance,
             uint32_t bounds)
     {
+        // The given key may be part of this map, whose content is going to be moved: use a copy of it.
+        std::vector<uint8_t> key(content_->first().memory_size());
+        content_->first().copy_instance(key.data(), instance);
+
         if (memory_ == nullptr || size_ == capacity_)
         {
             realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
         }
 
-        uint8_t* place = create_place(instance);
-        content_->first().copy_instance(place, instance);
+        uint8_t* place = create_place(key.data());
+        content_->first().move_instance(place, key.data(), false);
+        content_->first().destroy_instance(key.data());
         content_->second().construct_instance(place + content_->first().memory_size());
 
         size_++;
-- 
2.43.0


From d7dbb657b1151816aaf98f177b88a4c0e247d28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 06/64] fix: inserting a pair in a map keeps its value, and
 returns false for an existing key as documented

---
 include/xtypes/DynamicData.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 6015f21..1042383 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -976,7 +976,21 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         xtypes_assert(map.content_type().is_compatible(data.type()) == TypeConsistency::EQUALS, "Types doesn't match");
-        return map.insert_instance(instance_, p_instance(data)) != nullptr;
+        if (map.has_key(instance_, p_instance(data)))
+        {
+            return false;
+        }
+        uint8_t* instance = map.insert_instance(instance_, p_instance(data));
+        if (instance == nullptr)
+        {
+            return false;
+        }
+        // The entry was inserted with a default value
+        const PairType& pair = static_cast<const PairType&>(map.content_type());
+        const size_t offset = pair.first().memory_size();
+        pair.second().destroy_instance(instance + offset);
+        pair.second().copy_instance(instance + offset, p_instance(data) + offset);
+        return true;
     }
 
     /// \brief checks if a key is contained in the map represented by the DynamicData.
-- 
2.43.0


From d125ae9d810a17762d21a476b4b144f9cbad7734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 07/64] fix: converting to a structure with two or more extra
 members read past the source members

---
 include/xtypes/StructType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index 6ee3ca1..599b74e 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -142,12 +142,12 @@ public:
                     target + member.offset(),
                     source + other_member->offset(),
                     other_member->type());
+                other_member++;
             }
             else
             {
                 member.type().construct_instance(target + member.offset());
             }
-            other_member++;
         }
     }
 
-- 
2.43.0


From 3c9592eb194b39061c477739d6b7fc1e07e55fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 08/64] fix: converting a structure to a one-member structure
 that wraps a compatible one was refused

---
 include/xtypes/StructType.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index 599b74e..2cfbb1f 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -121,7 +121,8 @@ public:
 
         if (members().size() == 1) // Resolve one-member struct compatibility
         {
-            if (other.kind() != TypeKind::STRUCTURE_TYPE)
+            if (other.kind() != TypeKind::STRUCTURE_TYPE
+                    || static_cast<const StructType&>(other).members().size() != 1)
             {
                 members().at(0).type().copy_instance_from_type(target, source, other);
                 return;
-- 
2.43.0


From 0199e2ee98ebea88b90b8bd471f0ae299cfbfdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 09/64] fix: converting to a longer array left its last
 elements without construct

---
 include/xtypes/ArrayType.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 62efd0c..48a0231 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -174,6 +174,11 @@ public:
         {
             std::memcpy(target, source, min_dimension * block_size);
         }
+
+        for (uint32_t i = min_dimension; i < dimension_; i++)
+        {
+            content_type().construct_instance(target + i * block_size);
+        }
     }
 
     virtual void move_instance(
-- 
2.43.0


From 8410a878522eb0f3d43c629861c7becfcc2fb1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 10/64] fix: converting arrays and sequences of primitives of
 the same size copied bytes instead of values

---
 include/xtypes/ArrayType.hpp        | 4 ++--
 include/xtypes/SequenceInstance.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 48a0231..bb4cac0 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -160,7 +160,7 @@ public:
         size_t other_block_size = other_array.content_type().memory_size();
         size_t min_dimension = std::min(dimension_, other_array.dimension_);
 
-        if (content_type().is_constructed_type() || block_size != other_block_size)
+        if (content_type().is_constructed_type() || content_type().kind() != other_array.content_type().kind())
         {
             for (uint32_t i = 0; i < min_dimension; i++)
             {
@@ -170,7 +170,7 @@ public:
                     other_array.content_type());
             }
         }
-        else //optimization when the type is primitive with same block_size
+        else //optimization when both types are the same primitive
         {
             std::memcpy(target, source, min_dimension * block_size);
         }
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 20182ca..50a999d 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -286,7 +286,7 @@ private:
             realloc(min_size, bounds);
         }
 
-        if (content_->is_constructed_type() || block_size_ != other_block_size)
+        if (content_->is_constructed_type() || content_->kind() != other.content_->kind())
         {
             for (uint32_t i = 0; i < min_size; i++)
             {
@@ -296,7 +296,7 @@ private:
                     *other.content_);
             }
         }
-        else //optimization when the type is primitive with same block_size
+        else //optimization when both types are the same primitive
         {
             std::memcpy(memory_, other.memory_, min_size * block_size_);
         }
-- 
2.43.0


From b73ddb2a53de68b568f33d1d4c76da464af6b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 11/64] fix: converting a map kept the entries, layout and
 order of the source type

---
 include/xtypes/MapInstance.hpp | 21 +++++++++++++--------
 include/xtypes/MapType.hpp     |  5 ++++-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 9f1f3ea..39cf72f 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -73,22 +73,27 @@ public:
     }
 
     /// \brief Copy constructor from a MapInstance with other but compatible content.
+    /// The converted entries are placed again, because the hash of a key depends on its type.
     /// \param[in] other Map from copy the values.
+    /// \param[in] content Content of the map
     /// \param[in] bounds Max copied elements.
     /// \pre content and other.content compatibles (see dds::core::xtypes::DynamicType::is_compatible())
     MapInstance(
             const MapInstance& other,
+            const PairType& content,
             uint32_t bounds)
-        : content_(other.content_)
-        , block_size_(content_->memory_size())
-        , capacity_(bounds == 0 ? other.capacity_ : std::min(other.capacity_, bounds))
-        , size_(bounds == 0 ? other.size_ : std::min(other.size_, bounds))
+        : MapInstance(content, bounds == 0 ? other.capacity_ : std::min(other.capacity_, bounds))
     {
-        init_memory(memory_, capacity_);
-
-        if (memory_ != nullptr)
+        for (uint32_t i = 0; i < other.size_ && size_ < capacity_; i++)
         {
-            copy_content(other, size_);
+            std::vector<uint8_t> entry(block_size_);
+            content_->copy_instance_from_type(entry.data(), other.get_element(i), *other.content_);
+            if (!contains_key(entry.data()))
+            {
+                content_->move_instance(create_place(entry.data()), entry.data(), false);
+                size_++;
+            }
+            content_->destroy_instance(entry.data());
         }
     }
 
diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index 59dec95..31f9280 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -115,7 +115,10 @@ public:
             "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
 
         (void) other;
-        new (target) MapInstance(*reinterpret_cast<const MapInstance*>(source), bounds());
+        new (target) MapInstance(
+            *reinterpret_cast<const MapInstance*>(source),
+            static_cast<const PairType&>(content_type()),
+            bounds());
     }
 
     virtual void move_instance(
-- 
2.43.0


From d8d78d6ce3185c99b385dd57ce128982c72eecc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 12/64] fix: converting a pair read the second value at the
 offset of the target type

---
 include/xtypes/PairType.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index ba59729..9ac883b 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -126,7 +126,10 @@ public:
 
         const PairType& pair = static_cast<const PairType&>(other);
         first_->copy_instance_from_type(target, source, pair.first());
-        second_->copy_instance_from_type(target + first_->memory_size(), source + first_->memory_size(), pair.second());
+        second_->copy_instance_from_type(
+            target + first_->memory_size(),
+            source + pair.first().memory_size(),
+            pair.second());
     }
 
     void move_instance(
-- 
2.43.0


From c5b39d4745d5f8668d0028eaf11c649bfe571d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 13/64] fix: converting 8 and 16 bits enumerations read 32 bits

---
 include/xtypes/PrimitiveType.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index 2e32a73..c9c6548 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -171,9 +171,23 @@ protected:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint16_t*>(source);
                 break;
             case TypeKind::UINT_32_TYPE:
-            case TypeKind::ENUMERATION_TYPE:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint32_t*>(source);
                 break;
+            case TypeKind::ENUMERATION_TYPE:
+                // The associated type of an enumeration is known by its memory size
+                if (other.memory_size() == sizeof(uint8_t))
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint8_t*>(source);
+                }
+                else if (other.memory_size() == sizeof(uint16_t))
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint16_t*>(source);
+                }
+                else
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint32_t*>(source);
+                }
+                break;
             case TypeKind::UINT_64_TYPE:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint64_t*>(source);
                 break;
-- 
2.43.0


From e640e8a56587f5d94ec3f65e1659bb326d324d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 14/64] fix: the compatibility of a primitive with an alias was
 evaluated in reverse

---
 include/xtypes/PrimitiveType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index c9c6548..1b058a0 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -244,7 +244,7 @@ protected:
         if (other.kind() == TypeKind::ALIAS_TYPE)
         {
             const AliasType& other_alias = static_cast<const AliasType&>(other);
-            return other_alias.is_compatible(*this);
+            return is_compatible(other_alias.rget());
         }
 
         if (other.kind() == TypeKind::STRUCTURE_TYPE) // Resolve one-member structs
-- 
2.43.0


From 7ef08a630db06a7ccc8c1e02ce639ec273f24d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 15/64] fix: a pair was never compatible with a one-member
 structure of a pair

---
 include/xtypes/PairType.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index 9ac883b..4c864fc 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -166,6 +166,11 @@ public:
             return is_compatible(other_alias.rget());
         }
 
+        if (other.kind() == TypeKind::STRUCTURE_TYPE) // Resolve one-member structs
+        {
+            return other.is_compatible(*this);
+        }
+
         bool check = other.kind() == TypeKind::PAIR_TYPE;
 
         if (check)
-- 
2.43.0


From 40634dbb73b8e940cab5a88d59389075c09032e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 16/64] fix: the hash of a sequence is the one of its elements
 (it was constant, or depended on its address)

---
 include/xtypes/SequenceType.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index 3be6830..3190c1e 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -234,22 +234,15 @@ public:
     virtual uint64_t hash(
             const uint8_t* c_instance) const override
     {
-        if (bounds() > 0)
+        const SequenceInstance& sequence = *reinterpret_cast<const SequenceInstance*>(c_instance);
+        if (sequence.size() > 0)
         {
-            uint8_t* instance = const_cast<uint8_t*>(c_instance);
-            if (content_type().is_constructed_type())
+            uint64_t h = content_type().hash(sequence[0]);
+            for (uint32_t i = 1; i < sequence.size(); ++i)
             {
-                uint64_t h = content_type().hash(instance);
-                for (size_t i = 1; i < bounds(); ++i)
-                {
-                    Instanceable::hash_combine(h, content_type().hash(get_instance_at(instance, i)));
-                }
-                return h;
-            }
-            else
-            {
-                return Instanceable::hash(instance);
+                Instanceable::hash_combine(h, content_type().hash(sequence[i]));
             }
+            return h;
         }
         return 0;
     }
-- 
2.43.0


From 189e306461d5208220f750c88fdf566b9de26dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 17/64] fix: the hash of an union ignored its active member

---
 include/xtypes/UnionType.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 65ba758..47f4184 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -451,9 +451,10 @@ public:
             const uint8_t* instance) const override
     {
         uint64_t h = disc()->type().hash(instance);
-        if (0 < labels_.count(h))
+        int64_t label = current_label(disc()->type(), instance);
+        if (0 < labels_.count(label))
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(h)));
+            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             Instanceable::hash_combine(h, member->type().hash(instance + member->offset()));
         }
         return h;
-- 
2.43.0


From e14f713aa05f5dc2ddf10e29b66a7cabba631148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 18/64] fix: an union without selected case could not be copied

---
 include/xtypes/UnionType.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 47f4184..6598de4 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -275,9 +275,11 @@ public:
     {
         disc()->type().copy_instance(target, source);
         int64_t label = current_label(disc()->type(), source);
-        xtypes_assert(labels_.count(label) != 0, "Stored label in source is invalid");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-        member->type().copy_instance(target + member->offset(), source + member->offset());
+        if (0 < labels_.count(label)) // Otherwise, there is no case member selected
+        {
+            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
+            member->type().copy_instance(target + member->offset(), source + member->offset());
+        }
     }
 
     virtual void copy_instance_from_type(
-- 
2.43.0


From fe761d65b924170cbf713495caab0233d94a7b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 19/64] fix: selecting a label of an union ignored its width
 and left its member without construct

---
 include/xtypes/UnionType.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 6598de4..44a59f2 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -855,11 +855,14 @@ protected:
     /// \brief This method switches the current selected discriminator, checking its validity.
     bool select_disc(
             uint8_t* instance,
-            int64_t value) const
+            int64_t value)
     {
-        if (labels_.count(value) == 0 &&
-                default_ == invalid_value_)
+        // The labels are stored with the width of the discriminator.
+        value = shrink_label(value, disc()->type().memory_size());
+
+        if (labels_.count(value) == 0)
         {
+            xtypes_assert(false, "Value '" << value << "' isn't a label of any member of '" << name() << "'.");
             return false;
         }
 
@@ -874,6 +877,8 @@ protected:
             return false;
         }
 
+        // If there is no member selected, the one with this label must be built.
+        activate_member(instance, &const_cast<Member&>(AggregationType::member(labels_.at(value))));
         current_label(instance, value);
         return true;
     }
-- 
2.43.0


From 7c3af4ae2420ca0ce2e0c858bf7f6496f14ff82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 20/64] fix: a label with the value reserved for unselected
 unions was taken as no selection

---
 include/xtypes/UnionType.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 44a59f2..b574558 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -96,6 +96,9 @@ public:
         static_assert (std::is_integral<T>::value, "Only 'integral' types are allowed.");
         xtypes_assert(is_default || !labels.empty(), "Cannot add a non default case member without labels.");
         xtypes_assert(UNION_DISCRIMINATOR != member.name(), "Case member name 'discriminator' is reserved.");
+        xtypes_assert(
+            !is_default || default_ == invalid_value_,
+            "Cannot set more than one case member as default.");
         // Check labels
         for (T label : labels)
         {
@@ -135,9 +138,18 @@ public:
             }
         }
 
+        // The value that represents "no case member selected" cannot be a label.
+        if (default_ == invalid_value_)
+        {
+            while (labels_.count(invalid_value_) > 0 && labels_.size() < 2 * uint64_t(default_value_) + 1)
+            {
+                invalid_value_ = shrink_label(invalid_value_ - 1, disc_->type().memory_size());
+            }
+            default_ = invalid_value_;
+        }
+
         if (is_default)
         {
-            xtypes_assert(default_ == invalid_value_, "Cannot set more than one case member as default.");
             default_ = first_label;
             if (default_ == default_value_)
             {
@@ -1142,7 +1154,7 @@ private:
     size_t memory_size_;
     // Direct access
     const int64_t default_value_;
-    const int64_t invalid_value_;
+    int64_t invalid_value_;
     int64_t default_;
     // Aux memory_size_ calculations
     size_t maximum_case_member_memory_;
-- 
2.43.0


From 5abf90b87bcb1249f40d1e2232f68ba9a8a7ef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 21/64] fix: unions with 8 or 16 bits enumerations as
 discriminator wrote 32 bits

---
 include/xtypes/UnionType.hpp | 71 +++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 17 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index b574558..a3f46a6 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -530,9 +530,21 @@ protected:
 
         if (type->kind() == TypeKind::ENUMERATION_TYPE)
         {
-            [[maybe_unused]] EnumerationType<uint32_t>* enum_type = static_cast<EnumerationType<uint32_t>*>(type);
+            [[maybe_unused]] bool allowed = false;
+            switch (type->memory_size())
+            {
+                case sizeof(uint8_t):
+                    allowed = static_cast<EnumerationType<uint8_t>*>(type)->is_allowed_value(label);
+                    break;
+                case sizeof(uint16_t):
+                    allowed = static_cast<EnumerationType<uint16_t>*>(type)->is_allowed_value(label);
+                    break;
+                default:
+                    allowed = static_cast<EnumerationType<uint32_t>*>(type)->is_allowed_value(label);
+                    break;
+            }
             xtypes_assert(
-                enum_type->is_allowed_value(label),
+                allowed,
                 "Value '" << label << "' isn't allowed by the discriminator enumeration '" << type->name() << "'");
         }
     }
@@ -630,10 +642,7 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t lvalue = *reinterpret_cast<uint32_t*>(label_instance);
-                int64_t new_value = static_cast<int64_t>(lvalue);
-                current_label(instance, new_value);
+                current_label(instance, current_label(type, static_cast<const uint8_t*>(label_instance)));
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -743,10 +752,18 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t lvalue = static_cast<uint32_t>(new_value);
-                uint32_t& value = *reinterpret_cast<uint32_t*>(instance);
-                value = lvalue;
+                switch (disc_->type().memory_size())
+                {
+                    case sizeof(uint8_t):
+                        *reinterpret_cast<uint8_t*>(instance) = static_cast<uint8_t>(new_value);
+                        break;
+                    case sizeof(uint16_t):
+                        *reinterpret_cast<uint16_t*>(instance) = static_cast<uint16_t>(new_value);
+                        break;
+                    default:
+                        *reinterpret_cast<uint32_t*>(instance) = static_cast<uint32_t>(new_value);
+                        break;
+                }
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -837,9 +854,18 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t value = *reinterpret_cast<const uint32_t*>(instance);
-                disc_value = shrink_label(value, type.memory_size());
+                switch (type.memory_size())
+                {
+                    case sizeof(uint8_t):
+                        disc_value = *reinterpret_cast<const uint8_t*>(instance);
+                        break;
+                    case sizeof(uint16_t):
+                        disc_value = *reinterpret_cast<const uint16_t*>(instance);
+                        break;
+                    default:
+                        disc_value = *reinterpret_cast<const uint32_t*>(instance);
+                        break;
+                }
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -1121,7 +1147,6 @@ protected:
                     break;
                     case TypeKind::ENUMERATION_TYPE:
                     {
-                        // TODO: If other enumeration types are added, switch again.
                         uint32_t value = std::strtoull(label.c_str(), nullptr, base);
                         if (value == 0)
                         {
@@ -1131,9 +1156,21 @@ protected:
                             if (new_s.find("*") != std::string::npos)
                             {
                                 // Get the Enum value
-                                const EnumerationType<uint32_t>& enum_type =
-                                        static_cast<const EnumerationType<uint32_t>&>(disc_->type());
-                                value = enum_type.value(label);
+                                const DynamicType& enum_type = disc_->type().kind() == TypeKind::ALIAS_TYPE
+                                        ? static_cast<const AliasType&>(disc_->type()).rget()
+                                        : disc_->type();
+                                switch (enum_type.memory_size())
+                                {
+                                    case sizeof(uint8_t):
+                                        value = static_cast<const EnumerationType<uint8_t>&>(enum_type).value(label);
+                                        break;
+                                    case sizeof(uint16_t):
+                                        value = static_cast<const EnumerationType<uint16_t>&>(enum_type).value(label);
+                                        break;
+                                    default:
+                                        value = static_cast<const EnumerationType<uint32_t>&>(enum_type).value(label);
+                                        break;
+                                }
                             }
                         }
                         result.emplace_back(static_cast<int64_t>(value));
-- 
2.43.0


From eaa9a826a61eac951a4bcca56ef411f44d2a850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 22/64] fix: EnumerationType::default_value didn't compile

---
 include/xtypes/EnumerationType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/EnumerationType.hpp b/include/xtypes/EnumerationType.hpp
index ad586f2..b39e926 100644
--- a/include/xtypes/EnumerationType.hpp
+++ b/include/xtypes/EnumerationType.hpp
@@ -57,7 +57,7 @@ public:
         else
         {
             auto it = EnumeratedType<T>::values_.begin();
-            return it.second;
+            return it->second;
         }
     }
 
-- 
2.43.0


From b486a9bb8d1c2c02a4debbf1d1a385649846f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 23/64] fix: the copy of an enumeration isn't an
 EnumerationType (its next value was written out of the object)

---
 include/xtypes/EnumerationType.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/xtypes/EnumerationType.hpp b/include/xtypes/EnumerationType.hpp
index b39e926..f3c4280 100644
--- a/include/xtypes/EnumerationType.hpp
+++ b/include/xtypes/EnumerationType.hpp
@@ -71,6 +71,14 @@ public:
     }
 
 protected:
+    std::shared_ptr<DynamicType> clone() const override
+    {
+        auto clon = std::make_shared<EnumerationType>(this->name());
+        clon->values_ = this->values_;
+        clon->next_value_ = next_value_;
+        return clon;
+    }
+
     T next_value_ = T();
 
 };
-- 
2.43.0


From de668ce7ad2b8e316e2dea43411e7eb98aa1b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 24/64] fix: converting an union read the source as if it had
 the target layout

---
 include/xtypes/UnionType.hpp | 52 +++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index a3f46a6..67b1532 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -297,35 +297,45 @@ public:
     virtual void copy_instance_from_type(
             uint8_t* target,
             const uint8_t* source,
-            const DynamicType& other) const override
+            const DynamicType& arg_other) const override
     {
-        if (other.kind() == TypeKind::ALIAS_TYPE)
-        {
-            [[maybe_unused]] const AliasType& alias = static_cast<const AliasType&>(other);
+        const DynamicType& other = (arg_other.kind() == TypeKind::ALIAS_TYPE)
+                ? static_cast<const AliasType&>(arg_other).rget()
+                : arg_other;
 
-            xtypes_assert(alias.rget().kind() == TypeKind::UNION_TYPE,
-                    "Cannot copy data from different types: From '" << alias.rget().name() << "' to '" << name() <<
-                    "'.");
-        }
-        else
+        if (other.kind() == TypeKind::STRUCTURE_TYPE)
         {
-            xtypes_assert(other.kind() == TypeKind::UNION_TYPE,
-                    "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
+            // Resolve one-member struct compatibility
+            const StructType& struct_type = static_cast<const StructType&>(other);
+            if (struct_type.members().size() == 1)
+            {
+                copy_instance_from_type(target, source, struct_type.members().at(0).type());
+                return;
+            }
         }
-        const UnionType& other_union = static_cast<const UnionType&>(other);
 
-        Member* disc_ = disc();
-        disc_->type().copy_instance_from_type(target, source, other_union.disc()->type());
+        xtypes_assert(other.kind() == TypeKind::UNION_TYPE,
+                "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
 
-        int64_t label = current_label(disc_->type(), target);
-        if (0 < labels_.count(label))
+        const UnionType& other_union = static_cast<const UnionType&>(other);
+
+        int64_t other_label = other_union.current_label(other_union.disc()->type(), source);
+        int64_t label = (other_label == other_union.default_value_) ? default_value_ : other_label;
+        if (other_union.labels_.count(other_label) == 0 || labels_.count(label) == 0)
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-            member->type().copy_instance_from_type(
-                target + member->offset(),
-                source + member->offset(),
-                member->type());
+            // There is no case member selected, or it doesn't exist in this union.
+            construct_instance(target);
+            return;
         }
+
+        const Member& other_member = other_union.member(other_union.labels_.at(other_label));
+        const Member& own_member = member(labels_.at(label));
+        own_member.type().copy_instance_from_type(
+            target + own_member.offset(),
+            source + other_member.offset(),
+            other_member.type());
+        disc()->type().construct_instance(target);
+        current_label(target, label);
     }
 
     virtual void move_instance(
-- 
2.43.0


From bbd2e638395e973049259d830981d94cb5e61d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 25/64] fix: unions whose members have different labels were
 compatible (and their data was mixed up)

---
 include/xtypes/UnionType.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 67b1532..b6cb287 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -415,7 +415,8 @@ public:
             if (other_member != other_union.members().end())
             {
                 TypeConsistency internal_consistency = member.type().is_compatible(other_member->type());
-                if (internal_consistency == TypeConsistency::NONE)
+                if (internal_consistency == TypeConsistency::NONE
+                        || !has_same_labels(member.name(), other_union, other_member->name()))
                 {
                     return TypeConsistency::NONE;
                 }
@@ -1206,6 +1207,20 @@ private:
     // Aux memory_size_ calculations
     size_t maximum_case_member_memory_;
 
+    /// \brief This method checks if two members are selected by the same labels.
+    bool has_same_labels(
+            const std::string& member,
+            const UnionType& other,
+            const std::string& other_member) const
+    {
+        auto is_label_less = [](const UnionType& type, const std::string& name)
+                {
+                    return type.is_default(name) && type.default_ == type.default_value_;
+                };
+        return get_labels(member) == other.get_labels(other_member)
+               && is_label_less(*this, member) == is_label_less(other, other_member);
+    }
+
     /// \brief This method retrieves the discriminator Member.
     /// It cannot be stored as a pointer (like active_member_) because the internal AggregationType vector
     /// could be resized or moved, or we being cloned, invalidating the address. Updating it in each case,
-- 
2.43.0


From 4deb0a1c9d68c04ef5bea1dbee69bb88d6507589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 26/64] fix: a DynamicData created from a reference released
 the data it refers to

---
 include/xtypes/DynamicData.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 1042383..abd5dfd 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1346,14 +1346,16 @@ public:
     /// \brief Copy constructor from a ReadableDynamicDataRef
     DynamicData(
             const ReadableDynamicDataRef& other)
-        : WritableDynamicDataRef(other)
+        : WritableDynamicDataRef(other.type(), new uint8_t[other.type().memory_size()])
     {
+        memset(instance_, 0, other.type().memory_size());
+        type_->copy_instance(instance_, p_instance(other));
     }
 
-    /// \brief Move constructor from a WritableDynamicDataRef
+    /// \brief Copy constructor from a WritableDynamicDataRef (the referenced data isn't owned by the reference)
     DynamicData(
             WritableDynamicDataRef&& other)
-        : WritableDynamicDataRef(std::move(other))
+        : DynamicData(static_cast<const ReadableDynamicDataRef&>(other))
     {
     }
 
-- 
2.43.0


From 8a35c88c92b793c5795a4fce8ff857eba344fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 27/64] fix: assigning a data to itself, or to a part of it,
 read released memory

---
 include/xtypes/DynamicData.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index abd5dfd..d9504df 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -819,8 +819,7 @@ public:
     WritableDynamicDataRef& operator = (
             const WritableDynamicDataRef& other)
     {
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        assign_instance(p_instance(other));
         return *this;
     }
 
@@ -1034,8 +1033,7 @@ public:
                     "Trying to set an invalid value for enumerated type '" << type_->name() << "'.");
         }
 
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, reinterpret_cast<const uint8_t*>(&t));
+        assign_instance(reinterpret_cast<const uint8_t*>(&t));
     }
 
     /// \brief Push a primitive or string value into the DynamicData that represents a SequenceType
@@ -1311,6 +1309,22 @@ protected:
     {
     }
 
+    /// \brief Replaces the content of the managed instance by a copy of other one of the same type.
+    /// The source may be (or be part of) the managed instance, so it is copied before destroying it.
+    void assign_instance(
+            const uint8_t* source)
+    {
+        if (source == instance_)
+        {
+            return;
+        }
+        std::vector<uint8_t> copy(type_->memory_size());
+        type_->copy_instance(copy.data(), source);
+        type_->destroy_instance(instance_);
+        type_->move_instance(instance_, copy.data(), false);
+        type_->destroy_instance(copy.data());
+    }
+
     /// \brief Internal cast from readable to writable
     WritableDynamicDataRef(
             const ReadableDynamicDataRef& other)
@@ -1402,8 +1416,7 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        assign_instance(p_instance(other));
         return *this;
     }
 
@@ -1414,8 +1427,7 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        assign_instance(p_instance(other));
         return *this;
     }
 
-- 
2.43.0


From 08981773019fac35168c4d6300ece18fe5618db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 28/64] fix: references, sequences and maps accepted data of
 other types as if it were of their own

---
 include/xtypes/DynamicData.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index d9504df..fac8b80 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -251,6 +251,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
+        xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
         uint8_t* instance = map.get_instance_at(instance_, data.instance_);
         xtypes_assert(instance != nullptr, "MapType '" << type_->name() << "' doesn't contains the requested key.");
         return ReadableDynamicDataRef(pair.second(), instance + pair.first().memory_size());
@@ -819,6 +820,9 @@ public:
     WritableDynamicDataRef& operator = (
             const WritableDynamicDataRef& other)
     {
+        xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
+                "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
+                                                      << type_->name() << "'.");
         assign_instance(p_instance(other));
         return *this;
     }
@@ -941,6 +945,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
+        xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
         uint8_t* instance = map.get_instance_at(instance_, p_instance(data));
         if (instance == nullptr)
         {
@@ -1071,6 +1076,9 @@ public:
         xtypes_assert(type_->kind() == TypeKind::SEQUENCE_TYPE,
                 "push() is only available for sequence types but called for '" << type_->name() << "'.");
         const SequenceType& sequence = static_cast<const SequenceType&>(*type_);
+        xtypes_assert(sequence.content_type().is_compatible(data.type()) == TypeConsistency::EQUALS,
+                "Expected type '" << sequence.content_type().name()
+                                  << "' but '" << data.type().name() << "' received while pushing value.");
 
         uint8_t* element = sequence.push_instance(instance_, p_instance(data));
         xtypes_assert(element != nullptr, "Bound limit reached while pushing value."); (void) element;
-- 
2.43.0


From 282d6c27f7ffbc701aacef8728e615e669f70dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 29/64] fix: printing a wide char threw an exception

---
 include/xtypes/DynamicDataImpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index 02fd2a6..d3747d3 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -148,7 +148,7 @@ inline std::string ReadableDynamicDataRef::to_string() const
             case TypeKind::WIDE_CHAR_TYPE:
                 {
                     ss << "<" << type_name << ">  ";
-                    auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, node.data().value<char16_t>()));
+                    auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, node.data().cast<char16_t>()));
                     ss << std::string(aux.begin(), aux.end());
                     break;
                 }
-- 
2.43.0


From f599bd92eaa4ad8616da84adce7792a60e7a0880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 30/64] fix: 8 bits integers were printed as characters

---
 include/xtypes/DynamicDataImpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index d3747d3..99b8697 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -153,10 +153,10 @@ inline std::string ReadableDynamicDataRef::to_string() const
                     break;
                 }
             case TypeKind::INT_8_TYPE:
-                ss << "<" << type_name << ">  " << node.data().value<int8_t>();
+                ss << "<" << type_name << ">  " << int32_t(node.data().value<int8_t>());
                 break;
             case TypeKind::UINT_8_TYPE:
-                ss << "<" << type_name << ">  " << node.data().value<uint8_t>();
+                ss << "<" << type_name << ">  " << uint32_t(node.data().value<uint8_t>());
                 break;
             case TypeKind::INT_16_TYPE:
                 ss << "<" << type_name << ">  " << node.data().value<int16_t>();
-- 
2.43.0


From e61066823cc668683def18aa98fdc65e7fedd3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 31/64] fix: push and as_vector refused collections of alias,
 and as_vector empty ones

---
 include/xtypes/DynamicData.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index fac8b80..6a8af45 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -317,14 +317,22 @@ public:
         const CollectionType& collection = static_cast<const CollectionType&>(*type_);
         xtypes_assert(type_->is_collection_type(),
                 "as_vector() isn't available for type '" << type_->name() << "'.");
-        xtypes_assert((collection.content_type().kind() == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
-                || (collection.content_type().kind() == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
-                || (collection.content_type().kind() == TypeKind::STRING16_TYPE &&
+        [[maybe_unused]] const TypeKind content_kind = collection.content_type().kind() == TypeKind::ALIAS_TYPE
+                ? static_cast<const AliasType&>(collection.content_type()).rget().kind()
+                : collection.content_type().kind();
+        xtypes_assert((content_kind == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
+                || (content_kind == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
+                || (content_kind == TypeKind::STRING16_TYPE &&
                 std::is_same<std::u16string, T>::value)
-                || (collection.content_type().kind() == primitive_type<T>().kind()),
+                || (content_kind == primitive_type<T>().kind()),
                 "as_vector<" << PrimitiveTypeKindTrait<T>::name << ">() isn't available for type '"
                              << type_->name() << "'.");
 
+        if (size() == 0)
+        {
+            return std::vector<T>();
+        }
+
         const T* location = reinterpret_cast<T*>(collection.get_instance_at(instance_, 0));
         return std::vector<T>(location, location + size());
     }
@@ -1053,10 +1061,13 @@ public:
         xtypes_assert(type_->kind() == TypeKind::SEQUENCE_TYPE,
                 "push() is only available for sequence types but called for '" << type_->name() << "'.");
         const SequenceType& sequence = static_cast<const SequenceType&>(*type_);
-        xtypes_assert((sequence.content_type().kind() == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
-                || (sequence.content_type().kind() == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
-                || (sequence.content_type().kind() == TypeKind::STRING16_TYPE && std::is_same<std::u16string, T>::value)
-                || (sequence.content_type().kind() == primitive_type<T>().kind()),
+        [[maybe_unused]] const TypeKind content_kind = sequence.content_type().kind() == TypeKind::ALIAS_TYPE
+                ? static_cast<const AliasType&>(sequence.content_type()).rget().kind()
+                : sequence.content_type().kind();
+        xtypes_assert((content_kind == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
+                || (content_kind == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
+                || (content_kind == TypeKind::STRING16_TYPE && std::is_same<std::u16string, T>::value)
+                || (content_kind == primitive_type<T>().kind()),
                 "Expected type '" << static_cast<const SequenceType&>(*type_).content_type().name()
                                   << "' but '" << PrimitiveTypeKindTrait<T>::name << "' received while pushing value.");
 
-- 
2.43.0


From 11b290e959823370f63bd092958450bd8cf2c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 32/64] fix: string conversion appended unwritten units, and
 never ended for truncated input

---
 include/xtypes/StringConversion.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/StringConversion.hpp b/include/xtypes/StringConversion.hpp
index 91d495e..b0c2bb0 100644
--- a/include/xtypes/StringConversion.hpp
+++ b/include/xtypes/StringConversion.hpp
@@ -105,6 +105,7 @@ std::basic_string<out> code_conversion_tool(const std::basic_string_view<in>& in
     // iterate if buffer gets filled
     while (processing)
     {
+        const in* from_prev = from_next;
         codecvt_base::result res = choose::translate(
              conv_facet,
              mb,
@@ -129,8 +130,13 @@ std::basic_string<out> code_conversion_tool(const std::basic_string_view<in>& in
                 }
                 [[fallthrough]];
             case codecvt_base::partial:
+                // without any progress, the remaining input is truncated
+                if (to_next == buffer && from_next == from_prev)
+                {
+                    throw std::range_error("encountered a truncated character that could not be converted");
+                }
                 // insert current buffer content
-                output.append(buffer, buffer_size);
+                output.append(buffer, to_next - buffer);
                 break;
 
             case codecvt_base::error:
-- 
2.43.0


From 6519dea305ad843256fab9d8ea5360be6d2fcd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 33/64] fix: asking for an unknown submodule added a null one

---
 include/xtypes/idl/Module.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 864ff06..2648d1c 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -68,7 +68,8 @@ public:
     std::shared_ptr<Module> submodule(
             const std::string& submodule)
     {
-        return inner_[submodule];
+        auto it = inner_.find(submodule);
+        return it != inner_.end() ? it->second : nullptr;
     }
 
     size_t submodule_size()
@@ -116,7 +117,7 @@ public:
     Module& operator [] (
             const std::string& submodule)
     {
-        return *inner_[submodule];
+        return *inner_.at(submodule);
     }
 
     const Module& operator [] (
-- 
2.43.0


From 200f5d81e15d7c68d3b57079dbf84eb31cbbfe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 34/64] fix: has_enum_32 didn't resolve the scope of the name

---
 include/xtypes/idl/Module.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 2648d1c..b6fbe67 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -486,7 +486,13 @@ public:
     bool has_enum_32(
             const std::string& name) const
     {
-        return enumerations_32_.count(name) > 0;
+        // Solve scope
+        PairModuleSymbol module = resolve_scope(name);
+        if (module.first == nullptr)
+        {
+            return false;
+        }
+        return module.first->enumerations_32_.count(module.second) > 0;
     }
 
     const EnumerationType<uint32_t>& enum_32(
-- 
2.43.0


From 29433a90fe7cf56d54740b1a41f75c432a7909f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 35/64] fix: asking for the type of a constant or module by its
 full name dereferenced a null type

---
 include/xtypes/idl/Module.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index b6fbe67..61f4e5a 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -645,7 +645,7 @@ public:
             ret_type = module.first->aliases_.at(module.second).get();
         }
 
-        if (name.find("::") == 0)
+        if (name.find("::") == 0 && ret_type.get() != nullptr)
         {
             // Scope ambiguity solver was originally used, add it to the retrieved DynamicType
             ret_type->name(name);
-- 
2.43.0


From 8edac7716bacb9f60bd7c8b6a7bddcd5c2e0d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 36/64] fix: a qualified name was resolved to a symbol out of
 its scope

---
 include/xtypes/idl/Module.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 61f4e5a..7ef88cf 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -766,7 +766,8 @@ protected:
             return std::make_pair<const Module*, std::string>(this, std::move(name));
         }
 
-        if (outer_ != nullptr)
+        // A symbol qualified by its scope must be in that scope.
+        if (outer_ != nullptr && first)
         {
             return outer_->resolve_scope(symbol_name, original_name, true);
         }
-- 
2.43.0


From f6bcbcdd7088c1c074a95fbcf249e7da8c03ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 37/64] fix: an alias couldn't be created if there was another
 one with its name in an outer module

---
 include/xtypes/idl/Module.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 7ef88cf..9825c2c 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -571,7 +571,7 @@ public:
             const DynamicType::Ptr&& type,
             const std::string& name)
     {
-        if (name.find("::") != std::string::npos || has_alias(name))
+        if (name.find("::") != std::string::npos || aliases_.count(name) > 0)
         {
             return false; // Cannot define alias with scoped name (or already defined).
         }
-- 
2.43.0


From b1ad49342260bb878d86a75c8c6a19af909722d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 38/64] fix: a type that couldn't be added to a module was
 renamed

---
 include/xtypes/idl/Module.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 9825c2c..d5017ef 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -231,6 +231,10 @@ public:
         auto result = structs_.emplace(
             name,
             Type(*this, struct_type));
+        if (!result.second)
+        {
+            struct_type.name(name); // It wasn't added, keep its name
+        }
         return result.second;
     }
 
@@ -315,6 +319,10 @@ public:
         auto result = unions_.emplace(
             name,
             Type(*this, union_type));
+        if (!result.second)
+        {
+            union_type.name(name); // It wasn't added, keep its name
+        }
         return result.second;
     }
 
@@ -587,7 +595,12 @@ public:
         std::string name = alias.name();
         std::string name_space = scope();
         alias.name(name_space + (name_space.empty() ? "" : "::") + name);
-        return aliases_.emplace(name, Type(*this, AliasType(alias))).second;
+        bool added = aliases_.emplace(name, Type(*this, AliasType(alias))).second;
+        if (!added)
+        {
+            alias.name(name); // It wasn't added, keep its name
+        }
+        return added;
     }
 
     bool add_alias(
-- 
2.43.0


From 9b2be3793648054c34c41bc84227a640e95a6a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 39/64] fix: boolean, character and wide constants were
 generated with a wrong value

---
 include/xtypes/idl/generator.hpp | 34 +++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 2b39ad4..90a56b5 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -462,7 +462,39 @@ inline std::string get_const_value(
         suffix = "'";
     }
 
-    ss << prefix << data.cast<std::string>() << suffix;
+    ss << prefix;
+    switch (data.type().kind())
+    {
+        case TypeKind::BOOLEAN_TYPE:
+            ss << (data.value<bool>() ? "TRUE" : "FALSE");
+            break;
+        case TypeKind::CHAR_8_TYPE:
+            ss << data.value<char>();
+            break;
+        case TypeKind::CHAR_16_TYPE:
+        case TypeKind::WIDE_CHAR_TYPE:
+        {
+            auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, data.cast<char16_t>()));
+            ss << std::string(aux.begin(), aux.end());
+            break;
+        }
+        case TypeKind::WSTRING_TYPE:
+        {
+            const std::wstring& value = data.value<std::wstring>();
+            auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(value.begin(), value.end()));
+            ss << std::string(aux.begin(), aux.end());
+            break;
+        }
+        case TypeKind::STRING16_TYPE:
+        {
+            auto aux = code_conversion_tool<XTYPES_CHAR>(data.value<std::u16string>());
+            ss << std::string(aux.begin(), aux.end());
+            break;
+        }
+        default:
+            ss << data.cast<std::string>();
+    }
+    ss << suffix;
 
     return ss.str();
 }
-- 
2.43.0


From 70d3c6432f78a6ebd2d1bac04bd0c944bb88691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 40/64] fix: negative union labels, and those of an alias of an
 enumeration, were generated with a wrong value

---
 include/xtypes/idl/generator.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 90a56b5..f762276 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -219,14 +219,12 @@ inline std::string label_value(
         size_t value,
         const DynamicType& type)
 {
-    TypeKind kind = type.kind();
-
-    if (kind == TypeKind::ALIAS_TYPE)
+    if (type.kind() == TypeKind::ALIAS_TYPE)
     {
-        kind = static_cast<const AliasType&>(type).rget().kind();
+        return label_value(value, static_cast<const AliasType&>(type).rget());
     }
 
-    switch (kind)
+    switch (type.kind())
     {
         case TypeKind::BOOLEAN_TYPE:
         {
@@ -249,12 +247,16 @@ inline std::string label_value(
             return ss.str();
         }
         case TypeKind::INT_8_TYPE:
-        case TypeKind::UINT_8_TYPE:
+            return std::to_string(static_cast<int8_t>(value));
         case TypeKind::INT_16_TYPE:
-        case TypeKind::UINT_16_TYPE:
+            return std::to_string(static_cast<int16_t>(value));
         case TypeKind::INT_32_TYPE:
-        case TypeKind::UINT_32_TYPE:
+            return std::to_string(static_cast<int32_t>(value));
         case TypeKind::INT_64_TYPE:
+            return std::to_string(static_cast<int64_t>(value));
+        case TypeKind::UINT_8_TYPE:
+        case TypeKind::UINT_16_TYPE:
+        case TypeKind::UINT_32_TYPE:
         case TypeKind::UINT_64_TYPE:
         {
             return std::to_string(value);
-- 
2.43.0


From 9be7f54a25806228c5323dbf679bf4b5ffe9cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 41/64] fix: chained dependencies of a module were generated
 after being used

---
 include/xtypes/idl/generator_deptree.hpp | 50 ++++++++++++++++++------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index 0e6f84d..508759d 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -21,6 +21,8 @@
 #include <xtypes/idl/Module.hpp>
 #include <xtypes/idl/generator.hpp>
 
+#include <set>
+
 namespace eprosima {
 
 namespace xtypes {
@@ -1020,6 +1022,37 @@ public:
         }
     }
 
+    /// \brief Generate IDL sentences for all the DependencyNode that must be declared before the given one.
+    /// \param[in] node DependencyNode whose ancestors will be generated.
+    /// \param[in] tabs Padding relative to module's scope.
+    /// \param[in] visited DependencyNodes whose ancestors are already being generated.
+    /// \returns An string with the generated IDL.
+    std::string generate_idl_ancestors(
+            const DependencyNode& node,
+            unsigned int tabs,
+            std::map<std::string, std::string>* struct_idl,
+            std::set<const DependencyNode*>& visited) const
+    {
+        std::stringstream ss;
+
+        for (const auto& ancestor : node.ancestors())
+        {
+            if (visited.insert(&ancestor.get()).second)
+            {
+                ss << generate_idl_ancestors(ancestor.get(), tabs, struct_idl, visited);
+
+                std::string sentence = ancestor.get().generate_idl_sentence(tabs, struct_idl);
+
+                if (!sentence.empty())
+                {
+                    ss << sentence << std::endl;
+                }
+            }
+        }
+
+        return ss.str();
+    }
+
     /// \brief Generate IDL sentence for the DependencyNode contents of this module.
     /// \param[in] tabs Padding relative to module's scope.
     /// \param[in] is_child If set, generate IDL sentence only for DependencyNode that has as child
@@ -1033,19 +1066,8 @@ public:
 
         for (auto& node : node_set_)
         {
-            if (node.has_ancestors())
-            {
-                for (const auto& ancestor : node.ancestors())
-                {
-                    std::stringstream ss_ancestor;
-                    ss_ancestor << ancestor.get().generate_idl_sentence(tabs, struct_idl);
-
-                    if (ss_ancestor.rdbuf()->in_avail())
-                    {
-                        ss << ss_ancestor.str() << std::endl;
-                    }
-                }
-            }
+            std::set<const DependencyNode*> visited{&node};
+            ss << generate_idl_ancestors(node, tabs, struct_idl, visited);
 
             std::stringstream ss_node;
             ss_node << node.generate_idl_sentence(tabs, struct_idl);
@@ -1160,6 +1182,8 @@ public:
             {
                 if (onode.has_child_module(dep_mod))
                 {
+                    std::set<const DependencyNode*> visited{&onode};
+                    ss << outer->generate_idl_ancestors(onode, tabs, module_idl, visited);
                     ss << outer->generate_idl_sentence(onode, tabs, module_idl);
 
                     if (!outer->all_nodes_iterated())
-- 
2.43.0


From 9c7fcf473801c8bc9bbf08a427b15a633ec75245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 42/64] fix: a dependency of a module of other kind was
 generated after being used

---
 include/xtypes/idl/generator_deptree.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index 508759d..4c3429a 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -783,12 +783,9 @@ public:
     /// \brief Set a dependency between two DependencyNodes.
     /// \param[in] dependent The DependencyNode objects which depends on master.
     /// \param[in] master Name of the DependencyNode to be found in the tree.
-    /// \param[in] dep_list A ModuleElement map to search within this DependencyModule.
-    /// before triggering search in the whole tree.
     void set_dependency(
             DependencyNode& dependent,
-            const std::string& master,
-            const ModuleElementKind& kind)
+            const std::string& master)
     {
         if (dependent.name() == master) // Cannot add dependency to itself
         {
@@ -818,7 +815,7 @@ public:
         {
             for (auto& node : node_set_)
             {
-                if (node.kind() != kind)
+                if (node.kind() == ModuleElementKind::xCONST)
                 {
                     continue;
                 }
@@ -879,7 +876,7 @@ public:
     {
         if (opts_for_dependency_setting(type))
         {
-            set_dependency(node, master, node.kind());
+            set_dependency(node, master);
         }
     }
 
-- 
2.43.0


From 13ad293ab36d803e79c79da58a5fc177b3009ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 43/64] fix: an alias of a collection was generated before the
 types of its elements

---
 include/xtypes/idl/generator_deptree.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index 4c3429a..aa8f11d 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -889,7 +889,11 @@ public:
             case ModuleElementKind::xALIAS:
             {
                 const AliasType& alias = static_cast<const AliasType&>(node.type());
-                set_dynamic_type_dependency(node, *alias, alias->name());
+                alias->for_each([&](const DynamicType::TypeNode& tnode)
+                {
+                    const DynamicType& type = tnode.type();
+                    set_dynamic_type_dependency(node, type, type.name());
+                });
                 break;
             }
 
-- 
2.43.0


From e08d1441f876361ceb3510360fb0fe36f511dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 44/64] fix: converting a map was refused if an alias was used
 in the other one

---
 include/xtypes/MapType.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index 31f9280..b5df720 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -111,7 +111,9 @@ public:
 
         xtypes_assert(
             other.kind() == TypeKind::MAP_TYPE
-            && content_type().name() == static_cast<const MapType&>(other).content_type().name(),
+            && (content_type().name() == static_cast<const MapType&>(other).content_type().name()
+            || content_type().is_compatible(static_cast<const MapType&>(other).content_type())
+            == TypeConsistency::EQUALS),
             "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
 
         (void) other;
-- 
2.43.0


From 84387c8f0503e433adca86b4533a7d9a6335d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 45/64] fix: assigning data of other equivalent type copied its
 bits, and a refused conversion leaked the new data

---
 include/xtypes/DynamicData.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 6a8af45..0e10de3 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -831,7 +831,7 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
-        assign_instance(p_instance(other));
+        assign_instance(p_instance(other), other.type());
         return *this;
     }
 
@@ -1046,7 +1046,7 @@ public:
                     "Trying to set an invalid value for enumerated type '" << type_->name() << "'.");
         }
 
-        assign_instance(reinterpret_cast<const uint8_t*>(&t));
+        assign_instance(reinterpret_cast<const uint8_t*>(&t), *type_);
     }
 
     /// \brief Push a primitive or string value into the DynamicData that represents a SequenceType
@@ -1331,14 +1331,15 @@ protected:
     /// \brief Replaces the content of the managed instance by a copy of other one of the same type.
     /// The source may be (or be part of) the managed instance, so it is copied before destroying it.
     void assign_instance(
-            const uint8_t* source)
+            const uint8_t* source,
+            const DynamicType& source_type)
     {
         if (source == instance_)
         {
             return;
         }
         std::vector<uint8_t> copy(type_->memory_size());
-        type_->copy_instance(copy.data(), source);
+        type_->copy_instance_from_type(copy.data(), source, source_type);
         type_->destroy_instance(instance_);
         type_->move_instance(instance_, copy.data(), false);
         type_->destroy_instance(copy.data());
@@ -1399,14 +1400,12 @@ public:
     DynamicData(
             const ReadableDynamicDataRef& other,
             const DynamicType& type)
-        : WritableDynamicDataRef(type, new uint8_t[type.memory_size()])
+        : DynamicData(type)
     {
         xtypes_assert(type_->is_compatible(other.type()) != TypeConsistency::NONE,
                 "Incompatible types in DynamicData(const ReadableDynamicDataRef&, const DynamicType&): '"
                 << type_->name() << "' isn't compatible with '" << other.type().name() << "'.");
-        memset(instance_, 0, type.memory_size());
-        type_->copy_instance_from_type(instance_, p_instance(other), other.type());
-        initialize_ = true;
+        assign_instance(p_instance(other), other.type());
     }
 
     /// \brief Copy constructor
@@ -1435,7 +1434,7 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
-        assign_instance(p_instance(other));
+        assign_instance(p_instance(other), other.type());
         return *this;
     }
 
@@ -1446,7 +1445,7 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
-        assign_instance(p_instance(other));
+        assign_instance(p_instance(other), other.type());
         return *this;
     }
 
-- 
2.43.0


From f185fd756a88840cae65f5a857cbe331b2aa0009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 46/64] fix: a conversion refused halfway leaked the parts
 already converted

---
 include/xtypes/ArrayType.hpp        | 22 +++++++++++++++-----
 include/xtypes/PairType.hpp         | 16 +++++++++++----
 include/xtypes/SequenceInstance.hpp | 20 +++---------------
 include/xtypes/StructType.hpp       | 32 +++++++++++++++++++++--------
 4 files changed, 55 insertions(+), 35 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index bb4cac0..4f23d57 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -162,12 +162,24 @@ public:
 
         if (content_type().is_constructed_type() || content_type().kind() != other_array.content_type().kind())
         {
-            for (uint32_t i = 0; i < min_dimension; i++)
+            uint32_t i = 0;
+            try
             {
-                content_type().copy_instance_from_type(
-                    target + i * block_size,
-                    source + i * other_block_size,
-                    other_array.content_type());
+                for (; i < min_dimension; i++)
+                {
+                    content_type().copy_instance_from_type(
+                        target + i * block_size,
+                        source + i * other_block_size,
+                        other_array.content_type());
+                }
+            }
+            catch (...)
+            {
+                for (; i > 0; i--)
+                {
+                    content_type().destroy_instance(target + (i - 1) * block_size);
+                }
+                throw;
             }
         }
         else //optimization when both types are the same primitive
diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index 4c864fc..3828330 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -126,10 +126,18 @@ public:
 
         const PairType& pair = static_cast<const PairType&>(other);
         first_->copy_instance_from_type(target, source, pair.first());
-        second_->copy_instance_from_type(
-            target + first_->memory_size(),
-            source + pair.first().memory_size(),
-            pair.second());
+        try
+        {
+            second_->copy_instance_from_type(
+                target + first_->memory_size(),
+                source + pair.first().memory_size(),
+                pair.second());
+        }
+        catch (...)
+        {
+            first_->destroy_instance(target);
+            throw;
+        }
     }
 
     void move_instance(
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 50a999d..8cd1b02 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -79,26 +79,11 @@ public:
             const SequenceInstance& other,
             const DynamicType& content,
             uint32_t bounds)
-        : block_size_(content.memory_size())
-        , capacity_(bounds == 0 ? other.capacity_ : std::min(other.capacity_, bounds))
-        , size_(bounds == 0 ? other.size_ : std::min(other.size_, bounds))
+        : SequenceInstance(content, bounds == 0 ? other.capacity_ : std::min(other.capacity_, bounds))
     {
-        try
-        {
-            // is already associated to the DynamicData object
-            content_ = content.shared_from_this();
-        }
-        catch(const std::bad_weak_ptr&)
-        {
-            // make a copy (if type changes may blow the DynamicData object)
-            content_ = content.clone();
-        }
-
-        init_memory(memory_, capacity_);
-
         if (memory_ != nullptr)
         {
-            copy_content(other, size_);
+            copy_content(other, bounds == 0 ? other.size_ : std::min(other.size_, bounds));
         }
     }
 
@@ -294,6 +279,7 @@ private:
                     memory_ + i * block_size_,
                     other.memory_ + i * other_block_size,
                     *other.content_);
+                size_++;
             }
         }
         else //optimization when both types are the same primitive
diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index 2cfbb1f..8ec7025 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -135,20 +135,34 @@ public:
         const StructType& other_struct = static_cast<const StructType&>(other);
 
         auto other_member = other_struct.members().begin();
-        for (auto&& member: members())
+        auto member = members().begin();
+
+        try
         {
-            if (other_member != other_struct.members().end())
+            for (; member != members().end(); ++member)
             {
-                member.type().copy_instance_from_type(
-                    target + member.offset(),
-                    source + other_member->offset(),
-                    other_member->type());
-                other_member++;
+                if (other_member != other_struct.members().end())
+                {
+                    member->type().copy_instance_from_type(
+                        target + member->offset(),
+                        source + other_member->offset(),
+                        other_member->type());
+                    other_member++;
+                }
+                else
+                {
+                    member->type().construct_instance(target + member->offset());
+                }
             }
-            else
+        }
+        catch (...)
+        {
+            while (member != members().begin())
             {
-                member.type().construct_instance(target + member.offset());
+                --member;
+                member->type().destroy_instance(target + member->offset());
             }
+            throw;
         }
     }
 
-- 
2.43.0


From 5b9ee4075d7f976d238f6e88495481461848539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 47/64] fix: reading the selected member of an union changed
 its discriminator

---
 include/xtypes/UnionType.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index b6cb287..e368d9e 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -937,6 +937,12 @@ protected:
             uint8_t* instance,
             const std::string& case_member_name)
     {
+        auto current = labels_.find(current_label(disc()->type(), instance));
+        if (current != labels_.end() && current->second == case_member_name)
+        {
+            return true; // Already selected, accessing it must not change the discriminator.
+        }
+
         for (const auto& pair : labels_)
         {
             Member* member = &const_cast<Member&>(AggregationType::member(pair.second));
-- 
2.43.0


From 66f0112867d227dadf29d0b4e2e176ec67aeb9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 48/64] fix: compare arrays whose elements are described
 through an alias by value

---
 include/xtypes/DynamicData.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 0e10de3..e00e48b 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -85,8 +85,9 @@ public:
         if (type_->kind() == TypeKind::ARRAY_TYPE)
         {
             // If the data is Array, a fast way to discard equality is that the content or size of the array
-            // is different. We can check both without casting the type by comparing the type (array) name.
-            return type_->name() == other.type().name() && type_->compare_instance(instance_, other.instance_);
+            // is different. Names are not enough to tell, as any of both types can be described through aliases.
+            return type_->is_compatible(other.type()) == TypeConsistency::EQUALS
+                   && type_->compare_instance(instance_, other.instance_);
         }
         return type_->compare_instance(instance_, other.instance_);
     }
-- 
2.43.0


From a45e1696864adba713b99f9a796146e788123a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 49/64] fix: an enumeration accepted smaller or repeated values
 after the greatest one

---
 include/xtypes/EnumerationType.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/xtypes/EnumerationType.hpp b/include/xtypes/EnumerationType.hpp
index f3c4280..7059475 100644
--- a/include/xtypes/EnumerationType.hpp
+++ b/include/xtypes/EnumerationType.hpp
@@ -20,6 +20,8 @@
 
 #include <xtypes/EnumeratedType.hpp>
 
+#include <limits>
+
 namespace eprosima {
 namespace xtypes {
 
@@ -34,10 +36,12 @@ public:
             T value)
     {
         // New values must be always greater than the previous ones
+        xtypes_assert(!exhausted_, "There are no values greater than the previous one for enumerator '" + name + "'.");
         xtypes_assert(value >= next_value_,
             "Expected a value greater than " + std::to_string(next_value_) + " but received " + std::to_string(value));
         EnumeratedType<T>::insert_enumerator(name, value);
         next_value_ = value + 1;
+        exhausted_ = value == std::numeric_limits<T>::max();
         return *this;
     }
 
@@ -76,10 +80,12 @@ protected:
         auto clon = std::make_shared<EnumerationType>(this->name());
         clon->values_ = this->values_;
         clon->next_value_ = next_value_;
+        clon->exhausted_ = exhausted_;
         return clon;
     }
 
     T next_value_ = T();
+    bool exhausted_ = false;
 
 };
 
-- 
2.43.0


From 73dbe6d82a264a8ce7ab7628d3423f513f9032b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 50/64] fix: an alias with a scoped name was added to a module,
 where it couldn't be found

---
 include/xtypes/idl/Module.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index d5017ef..6f9baf3 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -592,6 +592,11 @@ public:
     bool add_alias(
             AliasType& alias)
     {
+        if (alias.name().find("::") != std::string::npos)
+        {
+            return false; // Cannot add a symbol with scoped name.
+        }
+
         std::string name = alias.name();
         std::string name_space = scope();
         alias.name(name_space + (name_space.empty() ? "" : "::") + name);
@@ -606,6 +611,11 @@ public:
     bool add_alias(
             AliasType&& alias)
     {
+        if (alias.name().find("::") != std::string::npos)
+        {
+            return false; // Cannot add a symbol with scoped name.
+        }
+
         std::string name = alias.name();
         std::string name_space = scope();
         alias.name(name_space + (name_space.empty() ? "" : "::") + name);
-- 
2.43.0


From ec1acde7b876ac281bd0898ac74def56e7c524fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 51/64] fix: a constant that replaced an enumerator was still
 taken as one

---
 include/xtypes/idl/Module.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 6f9baf3..077e0e5 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -22,6 +22,7 @@
 
 #include <xtypes/idl/Type.hpp>
 
+#include <algorithm>
 #include <string>
 #include <memory>
 
@@ -460,6 +461,7 @@ public:
             {
                 constants_.erase(it);
                 constants_types_.erase(constants_types_.find(name));
+                from_enum_.erase(std::remove(from_enum_.begin(), from_enum_.end(), name), from_enum_.end());
             }
         }
 
-- 
2.43.0


From 2b5459787e69e37a8d1135fea4da0c15b0e7d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:22 +0000
Subject: [PATCH 52/64] fix: sequences and maps nested in different ways had
 the same hash

---
 include/xtypes/MapInstance.hpp  | 12 ++++--------
 include/xtypes/SequenceType.hpp | 12 ++++--------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 39cf72f..1466d58 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -208,16 +208,12 @@ public:
 
     uint64_t map_hash() const
     {
-        if (size_ > 0)
+        uint64_t h = size_; // Different nestings of the same entries are different values
+        for (uint32_t i = 0; i < size_; ++i)
         {
-            uint64_t h = content_->hash(memory_);
-            for (uint32_t i = 1; i < size_; ++i)
-            {
-                Instanceable::hash_combine(h, content_->hash(get_element(i)));
-            }
-            return h;
+            Instanceable::hash_combine(h, content_->hash(get_element(i)));
         }
-        return 0;
+        return h;
     }
 
 private:
diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index 3190c1e..fcbd604 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -235,16 +235,12 @@ public:
             const uint8_t* c_instance) const override
     {
         const SequenceInstance& sequence = *reinterpret_cast<const SequenceInstance*>(c_instance);
-        if (sequence.size() > 0)
+        uint64_t h = sequence.size(); // Different nestings of the same elements are different values
+        for (uint32_t i = 0; i < sequence.size(); ++i)
         {
-            uint64_t h = content_type().hash(sequence[0]);
-            for (uint32_t i = 1; i < sequence.size(); ++i)
-            {
-                Instanceable::hash_combine(h, content_type().hash(sequence[i]));
-            }
-            return h;
+            Instanceable::hash_combine(h, content_type().hash(sequence[i]));
         }
-        return 0;
+        return h;
     }
 
 protected:
-- 
2.43.0


From 8195b92f7e55aad1c3fd26bf7ddfbf7ea0225f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 53/64] fix: different keys with the same hash were taken as
 one key

---
 include/xtypes/MapInstance.hpp | 49 +++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 1466d58..85254a3 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -125,7 +125,10 @@ public:
             bool comp = true;
             for (uint32_t i = 0; i < size_; i++)
             {
-                comp &= content_->compare_instance(memory_ + i * block_size_, other.memory_ + i * block_size_);
+                // Keys with the same hash may be in other order.
+                const uint8_t* entry = get_element(i);
+                const uint8_t* other_entry = other[entry];
+                comp &= other_entry != nullptr && content_->compare_instance(entry, other_entry);
             }
             return comp;
         }
@@ -209,10 +212,12 @@ public:
     uint64_t map_hash() const
     {
         uint64_t h = size_; // Different nestings of the same entries are different values
+        uint64_t entries = 0; // Keys with the same hash may be in any order
         for (uint32_t i = 0; i < size_; ++i)
         {
-            Instanceable::hash_combine(h, content_->hash(get_element(i)));
+            entries += content_->hash(get_element(i));
         }
+        Instanceable::hash_combine(h, entries);
         return h;
     }
 
@@ -321,7 +326,7 @@ private:
                 if (overlap && check_overlap(target, source))
                 {
                     // Creating a place
-                    uint32_t to_move = size_ - get_key_index(source);
+                    uint32_t to_move = size_ - (source - memory_) / block_size_;
                     for (uint32_t i = to_move; i > 0; --i)
                     {
                         content_->move_instance(target + (i - 1) * block_size_, source + (i - 1) * block_size_, false);
@@ -339,7 +344,7 @@ private:
             }
             else //optimization when the pair are both primitive
             {
-                std::memmove(target, source, (size_ - get_key_index(source)) * block_size_);
+                std::memmove(target, source, (size_ - (source - memory_) / block_size_) * block_size_);
             }
         }
     }
@@ -359,7 +364,7 @@ private:
         xtypes_assert(
             size_ == 0 ||
             place == get_element(size_) ||     // Insert at the end
-            hash(instance) != hash(place),
+            !same_key(instance, place),
             "Key already exists.");
         if (place != get_element(size_))
         {
@@ -401,7 +406,7 @@ private:
         {
             if (instance_hash == current_hash)
             {
-                return current;
+                return find_same_hash_place(current, instance, exact);
             }
             else if (instance_hash > current_hash)
             {
@@ -427,7 +432,7 @@ private:
 
         if (instance_hash == current_hash)
         {
-            return current;
+            return find_same_hash_place(current, instance, exact);
         }
         else if (instance_hash < current_hash)
         {
@@ -439,6 +444,36 @@ private:
         }
     }
 
+    /// \brief Find the place of a key between the ones that share its hash, which are together.
+    /// \param[in] current Any of the places with the hash of the key.
+    uint8_t* find_same_hash_place(
+            uint8_t* current,
+            const uint8_t* instance,
+            bool exact) const
+    {
+        const uint64_t instance_hash = hash(instance);
+        while (current != memory_ && hash(current - block_size_) == instance_hash)
+        {
+            current -= block_size_;
+        }
+        for (; current != get_element(size_) && hash(current) == instance_hash; current += block_size_)
+        {
+            if (same_key(instance, current))
+            {
+                return current;
+            }
+        }
+        return exact ? nullptr : current;
+    }
+
+    bool same_key(
+            const uint8_t* instance,
+            const uint8_t* place) const
+    {
+        return hash(instance) == hash(place)
+               && (!content_->first().is_constructed_type() || content_->first().compare_instance(instance, place));
+    }
+
     uint8_t* get_element(
             size_t index) const
     {
-- 
2.43.0


From afc42a11ddc3c5c667cd67e983621e46b5a46f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 54/64] fix: positive and negative zeros are equal, but their
 hash and the collections that hold them differed

---
 include/xtypes/ArrayType.hpp        |  4 ++--
 include/xtypes/DynamicType.hpp      |  9 +++++++++
 include/xtypes/MapInstance.hpp      |  2 +-
 include/xtypes/PrimitiveType.hpp    | 19 +++++++++++++++++++
 include/xtypes/SequenceInstance.hpp |  2 +-
 5 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 4f23d57..d9ffa80 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -230,7 +230,7 @@ public:
             const uint8_t* other_instance) const override
     {
         size_t block_size = content_type().memory_size();
-        if (content_type().is_constructed_type())
+        if (!content_type().is_comparable_by_bytes())
         {
             bool comp = true;
             for (uint32_t i = 0; i < dimension_; i++)
@@ -317,7 +317,7 @@ public:
         if (dimension_ > 0)
         {
             uint8_t* instance = const_cast<uint8_t*>(c_instance);
-            if (content_type().is_constructed_type())
+            if (!content_type().is_comparable_by_bytes())
             {
                 uint64_t h = content_type().hash(instance);
                 for (size_t i = 1; i < dimension_; ++i)
diff --git a/include/xtypes/DynamicType.hpp b/include/xtypes/DynamicType.hpp
index fa633d8..c11eb92 100644
--- a/include/xtypes/DynamicType.hpp
+++ b/include/xtypes/DynamicType.hpp
@@ -86,6 +86,15 @@ public:
         return (kind_& TypeKind::CONSTRUCTED_TYPE) != TypeKind::NO_TYPE;
     }
 
+    /// \brief check if two values of this type are equal exactly when their bytes are.
+    /// It isn't so for constructed types, nor for the floating point ones (two zeros, padding).
+    /// \returns true if the instances can be compared by their bytes
+    bool is_comparable_by_bytes() const
+    {
+        return !is_constructed_type()
+               && kind_ != TypeKind::FLOAT_32_TYPE && kind_ != TypeKind::FLOAT_64_TYPE && kind_ != TypeKind::FLOAT_128_TYPE;
+    }
+
     /// \brief check if this type is enumerated
     /// (has the corresponding bit of TypeKind::ENUMERATED_TYPE in its kind).
     /// \returns true if is enumerated
diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 85254a3..54338d4 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -120,7 +120,7 @@ public:
             return false;
         }
 
-        if (content_->first().is_constructed_type() || content_->second().is_constructed_type())
+        if (!content_->first().is_comparable_by_bytes() || !content_->second().is_comparable_by_bytes())
         {
             bool comp = true;
             for (uint32_t i = 0; i < size_; i++)
diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index 1b058a0..18176d8 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -22,6 +22,8 @@
 #include <xtypes/StructType.hpp>
 
 #include <cstring>
+#include <limits>
+#include <type_traits>
 
 namespace eprosima {
 namespace xtypes {
@@ -238,6 +240,23 @@ protected:
         return *reinterpret_cast<const T*>(instance) == *reinterpret_cast<const T*>(other_instance);
     }
 
+    virtual uint64_t hash(
+            const uint8_t* instance) const override
+    {
+        if (std::is_floating_point<T>::value)
+        {
+            // Equal values must have the same hash: there are two zeros, and a long double has padding.
+            const T value = *reinterpret_cast<const T*>(instance);
+            uint8_t bytes[sizeof(T)] = {};
+            if (value != T(0))
+            {
+                std::memcpy(bytes, &value, std::numeric_limits<T>::digits == 64 ? 10 : sizeof(T));
+            }
+            return Instanceable::hash(bytes);
+        }
+        return Instanceable::hash(instance);
+    }
+
     virtual TypeConsistency is_compatible(
             const DynamicType& other) const override
     {
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 8cd1b02..e4a3330 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -110,7 +110,7 @@ public:
             return false;
         }
 
-        if (content_->is_constructed_type())
+        if (!content_->is_comparable_by_bytes())
         {
             bool comp = true;
             for (uint32_t i = 0; i < size_; i++)
-- 
2.43.0


From 1fa4f2bc18b392f88995479b575a6dcb113fc555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 55/64] fix: generate constants of an enumeration with the name
 of their enumerator

---
 include/xtypes/idl/generator.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index f762276..333a5be 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -493,6 +493,23 @@ inline std::string get_const_value(
             ss << std::string(aux.begin(), aux.end());
             break;
         }
+        case TypeKind::ENUMERATION_TYPE:
+        {
+            if (data.type().memory_size() != sizeof(uint32_t))
+            {
+                ss << data.cast<std::string>();
+                break;
+            }
+            // The enumerators belong to the scope of their enumeration
+            const std::string& type_name = data.type().name();
+            size_t scope_end = type_name.rfind("::");
+            if (scope_end != std::string::npos)
+            {
+                ss << "::" << type_name.substr(0, scope_end + 2);
+            }
+            ss << static_cast<const EnumerationType<uint32_t>&>(data.type()).enumerator(data.value<uint32_t>());
+            break;
+        }
         default:
             ss << data.cast<std::string>();
     }
-- 
2.43.0


From 8fff60e6c1051b8f40220f49a752c17a7f299863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:38 +0000
Subject: [PATCH 56/64] fix: generated names aren't hidden by symbols of the
 enclosing modules

---
 include/xtypes/idl/generator.hpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 333a5be..c0c8135 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -131,6 +131,27 @@ inline std::string type_scope(
     return std::string();
 }
 
+inline std::string scoped_name(
+        dependencytree::DependencyNode* node,
+        const std::string& name)
+{
+    size_t pos = name.find("::");
+    if (node != nullptr && pos != std::string::npos)
+    {
+        // A symbol of the enclosing modules would hide the beginning of the name
+        const std::string first = name.substr(0, pos);
+        const dependencytree::DependencyModule* module = node->from();
+        for (; module->has_outer(); module = module->outer())
+        {
+            if (module->module().has_symbol(first, false))
+            {
+                return "::" + name;
+            }
+        }
+    }
+    return name;
+}
+
 inline std::string type_name(
         dependencytree::DependencyNode* node,
         const DynamicType& type,
@@ -188,7 +209,7 @@ inline std::string type_name(
 
         if (type.kind() == TypeKind::ALIAS_TYPE)
         {
-            ss << static_cast<const AliasType&>(type).name();
+            ss << generator::scoped_name(node, static_cast<const AliasType&>(type).name());
         }
         else
         {
@@ -203,7 +224,7 @@ inline std::string type_name(
                 }
                 else
                 {
-                    ss << type_name;
+                    ss << generator::scoped_name(node, type_name);
                 }
             }
             else
@@ -297,7 +318,8 @@ inline std::string structure(
     ss << std::string(tabs * 4, ' ') << "struct " << name;
     if (type.has_parent())
     {
-        ss << " : " << generator::type_scope(struct_node, type.parent()) << type.parent().name();
+        ss << " : " << generator::type_scope(struct_node, type.parent())
+           << generator::scoped_name(struct_node, type.parent().name());
     }
     ss << std::endl << std::string(tabs * 4, ' ') << "{" << std::endl;
 
-- 
2.43.0


From bcae05dbff57965dda8d26617ffce26d21484c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 57/64] fix: an iterator assigned from one of other collection
 kept the type of the former

---
 include/xtypes/DynamicData.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index e00e48b..3053364 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -449,6 +449,7 @@ public:
         Iterator& operator = (
                 const Iterator& other)
         {
+            type_ = other.type_;
             instance_ = other.instance_;
             index_ = other.index_;
             return *this;
-- 
2.43.0


From 81d9be7c83ee410ae09133a1f63e2c83b4d5e5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 58/64] fix: equal arrays whose elements are described through
 an alias had other hash

---
 include/xtypes/AliasType.hpp   | 5 +++++
 include/xtypes/DynamicType.hpp | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/AliasType.hpp b/include/xtypes/AliasType.hpp
index 1aade1f..bb8b745 100644
--- a/include/xtypes/AliasType.hpp
+++ b/include/xtypes/AliasType.hpp
@@ -169,6 +169,11 @@ public:
         return *t;
     }
 
+    virtual bool is_comparable_by_bytes() const override
+    {
+        return aliased_->is_comparable_by_bytes();
+    }
+
     virtual uint64_t hash(
             const uint8_t* instance) const override
     {
diff --git a/include/xtypes/DynamicType.hpp b/include/xtypes/DynamicType.hpp
index c11eb92..3a56171 100644
--- a/include/xtypes/DynamicType.hpp
+++ b/include/xtypes/DynamicType.hpp
@@ -89,7 +89,7 @@ public:
     /// \brief check if two values of this type are equal exactly when their bytes are.
     /// It isn't so for constructed types, nor for the floating point ones (two zeros, padding).
     /// \returns true if the instances can be compared by their bytes
-    bool is_comparable_by_bytes() const
+    virtual bool is_comparable_by_bytes() const
     {
         return !is_constructed_type()
                && kind_ != TypeKind::FLOAT_32_TYPE && kind_ != TypeKind::FLOAT_64_TYPE && kind_ != TypeKind::FLOAT_128_TYPE;
-- 
2.43.0


From bcd53e251896d78b16a0872787f481f27e4d2d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:56 +0000
Subject: [PATCH 59/64] fix: the modules required by what a module needs of its
 outer one are generated first

---
 include/xtypes/idl/generator_deptree.hpp | 38 ++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index aa8f11d..fc3a6ea 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -1183,6 +1183,9 @@ public:
             {
                 if (onode.has_child_module(dep_mod))
                 {
+                    std::set<const DependencyNode*> visited_modules;
+                    ss << generate_idl_parent_modules(onode, dep_mod, tabs, module_idl, visited_modules);
+
                     std::set<const DependencyNode*> visited{&onode};
                     ss << outer->generate_idl_ancestors(onode, tabs, module_idl, visited);
                     ss << outer->generate_idl_sentence(onode, tabs, module_idl);
@@ -1311,6 +1314,41 @@ public:
 
 private:
 
+    /// \brief Generate the IDL of the modules that a node, or any of its ancestors, requires.
+    /// \param[in] node DependencyNode whose required modules will be generated.
+    /// \param[in] dep_mod DependencyModule that is already being generated.
+    /// \param[in] tabs Padding relative to module's scope.
+    /// \param[in] visited DependencyNodes whose required modules are already being generated.
+    /// \returns A string with the generated IDL.
+    std::string generate_idl_parent_modules(
+            const DependencyNode& node,
+            const DependencyModule* dep_mod,
+            unsigned int tabs,
+            std::map<std::string, std::string>* module_idl,
+            std::set<const DependencyNode*>& visited) const
+    {
+        std::stringstream ss;
+
+        if (visited.insert(&node).second)
+        {
+            for (const auto& ancestor : node.ancestors())
+            {
+                ss << generate_idl_parent_modules(ancestor.get(), dep_mod, tabs, module_idl, visited);
+            }
+
+            for (const auto& parent : node.parent_modules())
+            {
+                DependencyModule* p_parent = parent.lock().get();
+                if (p_parent != dep_mod && !p_parent->iterated())
+                {
+                    ss << generate_idl(p_parent, tabs, module_idl) << std::endl;
+                }
+            }
+        }
+
+        return ss.str();
+    }
+
     std::shared_ptr<DependencyModule> dep_root_;
 };
 
-- 
2.43.0


From e41bd4e8d880dc39e25e8b22a3ac0d3048cc5cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:58 +0000
Subject: [PATCH 60/64] fix: generated text is ordered by what declarations
 mention, not by all that is inside of it

---
 include/xtypes/idl/generator_deptree.hpp | 56 ++++++++++++++++--------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index fc3a6ea..3f1488f 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -57,6 +57,9 @@ inline std::string enumeration32(
         const EnumerationType<uint32_t>& enumeration,
         size_t tabs = 0);
 
+inline size_t inherit_members(
+        const AggregationType& type);
+
 inline std::string structure(
         const std::string& name,
         const StructType& type,
@@ -880,6 +883,31 @@ public:
         }
     }
 
+    /// \brief Set the dependencies of a DependencyNode with a type it mentions: the type itself, or
+    /// those which it's a collection of. What these ones mention are dependencies of their own nodes.
+    /// \param[in] node The dependent node.
+    /// \param[in] type The DynamicType mentioned by the node.
+    void set_content_dependencies(
+            DependencyNode& node,
+            const DynamicType& type)
+    {
+        if (opts_for_dependency_setting(type))
+        {
+            set_dynamic_type_dependency(node, type, type.name());
+        }
+        else if (type.kind() == TypeKind::PAIR_TYPE)
+        {
+            const PairType& pair = static_cast<const PairType&>(type);
+            set_content_dependencies(node, pair.first());
+            set_content_dependencies(node, pair.second());
+        }
+        else if (type.kind() == TypeKind::ARRAY_TYPE || type.kind() == TypeKind::SEQUENCE_TYPE
+                || type.kind() == TypeKind::MAP_TYPE)
+        {
+            set_content_dependencies(node, static_cast<const CollectionType&>(type).content_type());
+        }
+    }
+
     /// \brief Inspects a DependencyNode object and sets dependencies according to its kind.
     /// \param[in] node The DependencyNode whose dependencies wants to be solved.
     void set_node_dependencies(DependencyNode& node)
@@ -889,11 +917,7 @@ public:
             case ModuleElementKind::xALIAS:
             {
                 const AliasType& alias = static_cast<const AliasType&>(node.type());
-                alias->for_each([&](const DynamicType::TypeNode& tnode)
-                {
-                    const DynamicType& type = tnode.type();
-                    set_dynamic_type_dependency(node, type, type.name());
-                });
+                set_content_dependencies(node, alias.get());
                 break;
             }
 
@@ -921,28 +945,22 @@ public:
                     set_dynamic_type_dependency(node, structure.parent(), structure.parent().name());
                 }
 
-                structure.for_each([&](const DynamicType::TypeNode& tnode)
+                for (size_t idx = inherit_members(structure); idx < structure.members().size(); ++idx)
                 {
-                    const DynamicType& type = tnode.type();
-                    if (type.name() != structure.name())
-                    {
-                        set_dynamic_type_dependency(node, type, type.name());
-                    }
-                });
+                    set_content_dependencies(node, structure.member(idx).type());
+                }
                 break;
             }
             case ModuleElementKind::xUNION:
             {
                 // TODO: detect if we are setting cyclical union dependencies, and generate a forward declaration.
                 const UnionType& union_type = static_cast<const UnionType&>(node.type());
-                union_type.for_each([&](const DynamicType::TypeNode& tnode)
+                set_content_dependencies(node, union_type.discriminator());
+
+                for (const Member& member : union_type.members())
                 {
-                    const DynamicType& type = tnode.type();
-                    if (type.name() != union_type.name())
-                    {
-                        set_dynamic_type_dependency(node, type, type.name());
-                    }
-                });
+                    set_content_dependencies(node, member.type());
+                }
                 break;
             }
             /*
-- 
2.43.0


From 327cb39fe34c55c23336e2183248d1d1f7695939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:03 +0000
Subject: [PATCH 61/64] fix: the memory of a sequence or map is computed
 without overflow

---
 include/xtypes/MapInstance.hpp      | 4 ++--
 include/xtypes/SequenceInstance.hpp | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 54338d4..302fc02 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -226,7 +226,7 @@ private:
     friend class MapType;
 
     std::shared_ptr<const PairType> content_;
-    uint32_t block_size_ = 0;
+    size_t block_size_ = 0;
     uint32_t capacity_ = 0;
     uint8_t* memory_ = nullptr;
     uint32_t size_ = 0;
@@ -248,7 +248,7 @@ private:
 
     void init_memory(
             uint8_t*& memory,
-            uint32_t size)
+            size_t size)
     {
         if (memory == nullptr || size != capacity_)
         {
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index e4a3330..a265704 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -17,10 +17,12 @@
 #ifndef EPROSIMA_XTYPES_SEQUENCE_INSTANCE_HPP_
 #define EPROSIMA_XTYPES_SEQUENCE_INSTANCE_HPP_
 
+#include <xtypes/Assert.hpp>
 #include <xtypes/DynamicType.hpp>
 
 #include <cstdint>
 #include <cstring>
+#include <limits>
 
 namespace eprosima {
 namespace xtypes {
@@ -170,6 +172,9 @@ public:
             return;
         }
 
+        xtypes_assert(new_size <= std::numeric_limits<uint32_t>::max(),
+                "The desired size (" << new_size << ") is bigger than the number of elements that a sequence can hold.");
+
         realloc(new_size, bounds);
 
         for (size_t i = size_; i < new_size; i++)
@@ -204,7 +209,7 @@ private:
     friend class SequenceType;
 
     std::shared_ptr<const DynamicType> content_;
-    uint32_t block_size_ = 0;
+    size_t block_size_ = 0;
     uint32_t capacity_ = 0;
     uint8_t* memory_ = nullptr;
     uint32_t size_ = 0;
@@ -226,7 +231,7 @@ private:
 
     void init_memory(
             uint8_t*& memory,
-            uint32_t size)
+            size_t size)
     {
         if (memory == nullptr || size != capacity_)
         {
-- 
2.43.0


From a0df06fced403f9a96cbe7242ceeb02d808e167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:03 +0000
Subject: [PATCH 62/64] fix: a recursive query of a type isn't forgotten by
 later inner modules

---
 include/xtypes/idl/Module.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 077e0e5..feefe7b 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -635,7 +635,11 @@ public:
         {
             for (auto [key, mod]: inner_)
             {
-                ret_type = mod.get()->type(name, recursive);
+                DynamicType::Ptr inner_type = mod.get()->type(name, recursive);
+                if (inner_type.get() != nullptr)
+                {
+                    ret_type = inner_type;
+                }
             }
         }
 
-- 
2.43.0


From 4c46eb0717c137d24a79ae79bfd5a8d791a4dbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:36 +0000
Subject: [PATCH 63/64] fix: a data that cannot be constructed gives its memory
 back

---
 include/xtypes/DynamicData.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 3053364..a74ffb7 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1375,7 +1375,15 @@ public:
         : WritableDynamicDataRef(type, new uint8_t[type.memory_size()])
     {
         memset(instance_, 0, type.memory_size());
-        type_->construct_instance(instance_);
+        try
+        {
+            type_->construct_instance(instance_);
+        }
+        catch (...)
+        {
+            delete[] instance_; // Nothing was constructed in it: the destructor isn't called
+            throw;
+        }
         initialize_ = true;
     }
 
-- 
2.43.0


From d19d5afd09ca6a277aaa0639f526189a2a574695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:31 +0000
Subject: [PATCH 64/64] fix: a map finds its key when neither the keys nor the
 values take memory

---
 include/xtypes/MapInstance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 302fc02..de715e9 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -38,7 +38,7 @@ public:
     MapInstance(
             const PairType& content,
             uint32_t capacity = 0)
-        : block_size_(content.memory_size())
+        : block_size_(std::max(content.memory_size(), size_t(1))) // Entries without data have their own place too
         , capacity_(capacity)
         , size_(0)
     {
-- 
2.43.0

