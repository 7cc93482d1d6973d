From bc09a8d4ab4190e9731dbc94164393604fab3f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 01/31] fix: print type flags by bit position and include
 CopyAssignable

---
 src/metatype.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/metatype.cpp b/src/metatype.cpp
index 5c44784..1c94c70 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -477,6 +477,7 @@ static char const *flag_names[] = {"None",
                                    "Polymorphic",
                                    "DefaultConstructible",
                                    "CopyConstructible",
+                                   "CopyAssignable",
                                    "MoveConstructible",
                                    "MoveAssignable",
                                    "Destructible",
@@ -485,7 +486,12 @@ static char const *flag_names[] = {"None",
 
 inline static std::string_view flag_name(TypeFlags value)
 {
-    return flag_names[static_cast<std::underlying_type_t<TypeFlags>>(value)];
+    // flag_names[0] is "None", flag_names[N + 1] is the name of the bit N
+    auto bits  = static_cast<std::underlying_type_t<TypeFlags>>(value);
+    auto index = std::size_t{0};
+    for (; bits != 0; bits >>= 1)
+        ++index;
+    return flag_names[index];
 }
 
 inline static constexpr bool check_flag(TypeFlags value, TypeFlags bit)
@@ -543,6 +549,8 @@ std::ostream& operator<<(std::ostream &stream, TypeFlags value)
         it = flag_name(TypeFlags::DefaultConstructible);
     if (check_flag(value, TypeFlags::CopyConstructible))
         it = flag_name(TypeFlags::CopyConstructible);
+    if (check_flag(value, TypeFlags::CopyAssignable))
+        it = flag_name(TypeFlags::CopyAssignable);
     if (check_flag(value, TypeFlags::MoveConstructible))
         it = flag_name(TypeFlags::MoveConstructible);
     if (check_flag(value, TypeFlags::MoveAssignable))
-- 
2.43.0


From c0c12f42921b2f7d01ecd15c9d4c5feb79df25da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 02/31] fix: construct array elements in raw storage instead of
 assigning to them

---
 include/rtti/metatype.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index e4ff728..66d0cd8 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -10,6 +10,8 @@
 #include <rtti/typename.h>
 #include <rtti/tagged_id.h>
 
+#include <memory>
+
 namespace rtti {
 
 namespace internal {
@@ -333,13 +335,7 @@ struct type_function_table_impl<T[N]>
         {
             if constexpr(!std::is_trivially_default_constructible_v<Base>)
                 if (where)
-                {
-                    auto *begin = static_cast<Base*>(where);
-                    auto *end = static_cast<Base*>(where) + Length;
-
-                    for (; begin != end; ++begin)
-                        new (begin) Base();
-                }
+                    std::uninitialized_value_construct_n(static_cast<Base*>(where), Length);
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't DefaultConstructible");
     }
@@ -353,7 +349,7 @@ struct type_function_table_impl<T[N]>
             if (source && where)
             {
                 auto *it = static_cast<Base const*>(source);
-                std::copy(it, it + Length, static_cast<Base*>(where));
+                std::uninitialized_copy(it, it + Length, static_cast<Base*>(where));
             }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't CopyConstructible");
@@ -368,7 +364,7 @@ struct type_function_table_impl<T[N]>
             if (source && where)
             {
                 auto *it = static_cast<Base*>(source);
-                std::move(it, it + Length, static_cast<Base*>(where));
+                std::uninitialized_move(it, it + Length, static_cast<Base*>(where));
             }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't MoveConstructible");
-- 
2.43.0


From b201c9cb80d5df233a215ad7d6e927f2c3ce4091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 03/31] fix: call converter methods through the member pointer

---
 include/rtti/metatype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 66d0cd8..64bfba6 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -719,7 +719,7 @@ struct RTTI_PRIVATE ConvertMethod: ConvertFunctionBase
         {
             auto &_this = static_cast<this_t const&>(self);
             auto from = static_cast<From const*>(in);
-            new (out) To(from->*_this.m_func());
+            new (out) To((from->*_this.m_func)());
             return true;
         }
         catch (...)
@@ -752,7 +752,7 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
         auto &_this = static_cast<this_t const&>(self);
         auto from = static_cast<From const*>(in);
         auto result = false;
-        new (out) To(from->*_this.m_func(result));
+        new (out) To((from->*_this.m_func)(result));
         return result;
     }
 
-- 
2.43.0


From a64b702cd19f59a01c085a9e6c1746ce9ba14412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 04/31] fix: accept static functions as property accessors

---
 include/rtti/metadefine.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index a9f7428..45fb437 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -781,7 +781,7 @@ struct PropertyInvokerEx: IPropertyInvoker
     {}
 
     bool isStatic() const override
-    { return std::is_function_v<G>; }
+    { return std::is_function_v<std::remove_pointer_t<G>>; }
 
     MetaType_ID typeId() const override
     { return metaTypeId<T>(); }
@@ -806,7 +806,8 @@ struct PropertyInvokerEx: IPropertyInvoker
 
 private:
     static constexpr auto valid = conditional_v<
-     (std::is_function_v<G> && (std::is_void_v<S> || std::is_function_v<S>))
+     (std::is_function_v<std::remove_pointer_t<G>> &&
+        (std::is_void_v<S> || std::is_function_v<std::remove_pointer_t<S>>))
      ||
      (std::is_member_function_pointer_v<G> && (std::is_void_v<S> || std::is_member_function_pointer_v<S>)),
      std::true_type, std::false_type>;
-- 
2.43.0


From dbeca510a663469f7b5b2931ed13406d35e35f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 05/31] fix: allow invoking a static method without arguments

---
 include/rtti/detail/metamethod_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rtti/detail/metamethod_impl.h b/include/rtti/detail/metamethod_impl.h
index 0aaf9f4..17ca8ff 100644
--- a/include/rtti/detail/metamethod_impl.h
+++ b/include/rtti/detail/metamethod_impl.h
@@ -11,8 +11,10 @@ variant MetaMethod::invoke(Args&&... args) const
     auto interface = invoker();
     if (interface->isStatic())
         return interface->invoke_static(std::forward<Args>(args)...);
-    else
+    else if constexpr(sizeof...(Args) > 0)
         return interface->invoke_method(std::forward<Args>(args)...);
+    else
+        throw invoke_error{"Trying to invoke method " + qualifiedName() + " without an instance"};
 }
 
 } // namespace rtti
-- 
2.43.0


From 51299a27f99abeca3dfc05bdae557b526e67a412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 06/31] fix: let a derived class redefine an inherited property
 or method

---
 src/metamethod.cpp   | 10 ++++++++--
 src/metaproperty.cpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/metamethod.cpp b/src/metamethod.cpp
index ffa0762..c913a72 100644
--- a/src/metamethod.cpp
+++ b/src/metamethod.cpp
@@ -26,14 +26,20 @@ MetaMethod* MetaMethod::create(std::string_view name, MetaContainer &owner,
         return nullptr;
 
     auto signature = invoker->signature(name);
-    auto result = const_cast<MetaMethod*>(owner.getMethod(signature));
+    // Only own items matter here: inherited ones with the same name are hidden
+    auto find = [&owner, &signature]() {
+        MetaItem const *item = INVOKE_PROTECTED(owner, item, mcatMethod, signature);
+        return static_cast<MetaMethod*>(const_cast<MetaItem*>(item));
+    };
+
+    auto result = find();
     if (!result)
     {
         result = new MetaMethod{signature, owner, std::move(invoker)};
         if (!INVOKE_PROTECTED(owner, addItem, result))
         {
             delete result;
-            result = const_cast<MetaMethod*>(owner.getMethod(signature));
+            result = find();
         }
     }
     return result;
diff --git a/src/metaproperty.cpp b/src/metaproperty.cpp
index 1da43c8..455861e 100644
--- a/src/metaproperty.cpp
+++ b/src/metaproperty.cpp
@@ -18,14 +18,20 @@ MetaProperty* MetaProperty::create(std::string_view name, MetaContainer &owner,
     if (name.empty() || !invoker)
         return nullptr;
 
-    auto result = const_cast<MetaProperty*>(owner.getProperty(name));
+    // Only own items matter here: inherited ones with the same name are hidden
+    auto find = [&owner, name]() {
+        MetaItem const *item = INVOKE_PROTECTED(owner, item, mcatProperty, name);
+        return static_cast<MetaProperty*>(const_cast<MetaItem*>(item));
+    };
+
+    auto result = find();
     if (!result)
     {
         result = new MetaProperty{name, owner, std::move(invoker)};
         if (!INVOKE_PROTECTED(owner, addItem, result))
         {
             delete result;
-            result = const_cast<MetaProperty*>(owner.getProperty(name));
+            result = find();
         }
     }
     return result;
-- 
2.43.0


From fd106582bacebeb35a338ab8d63fd3c6592a5504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 07/31] fix: release the storage of a value whose constructor
 has thrown

---
 include/rtti/detail/variant_impl.h | 47 ++++++++++++++++++++++--------
 src/metatype.cpp                   | 20 +++++++++----
 2 files changed, 49 insertions(+), 18 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 2ba1779..b3a327f 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -15,6 +15,23 @@ template<typename T>
 constexpr auto is_inplace_v = is_inplace<T>::value;
 
 
+// Constructs value in the newly allocated storage, releases storage if constructor has thrown
+template<typename Manager, typename Construct>
+inline void* allocate_and_construct(Construct &&construct)
+{
+    auto *result = Manager::allocate();
+    try
+    {
+        construct(result);
+    }
+    catch (...)
+    {
+        Manager::deallocate(result);
+        throw;
+    }
+    return result;
+}
+
 template<typename T>
 struct is_reference_wrapper: std::false_type
 {};
@@ -213,22 +230,25 @@ struct variant_function_table_impl<T, false, false>
     static void copy_construct(void const *value, variant_type_storage &storage)
         noexcept(std::is_nothrow_copy_constructible_v<Decay>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(value, storage.ptr);
+        storage.ptr = allocate_and_construct<type_manager_t<Decay>>([value] (void *where) {
+            type_manager_t<Decay>::copy_construct(value, where);
+        });
     }
 
     static void move_construct(void *value, variant_type_storage &storage)
         noexcept(std::is_nothrow_move_constructible_v<Decay>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::move_or_copy(value, storage.ptr);
+        storage.ptr = allocate_and_construct<type_manager_t<Decay>>([value] (void *where) {
+            type_manager_t<Decay>::move_or_copy(value, where);
+        });
     }
 
     static void copy(variant_type_storage const &src, variant_type_storage &dst)
         noexcept(std::is_nothrow_copy_constructible_v<Decay>)
     {
-        dst.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(src.ptr, dst.ptr);
+        dst.ptr = allocate_and_construct<type_manager_t<Decay>>([&src] (void *where) {
+            type_manager_t<Decay>::copy_construct(src.ptr, where);
+        });
     }
 
     static void move(variant_type_storage &src, variant_type_storage &dst) noexcept
@@ -285,22 +305,25 @@ struct variant_function_table_impl<T[N], false, false>
     static void copy_construct(void const *value, variant_type_storage &storage)
         noexcept(std::is_nothrow_copy_constructible_v<Base>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(value, storage.ptr);
+        storage.ptr = allocate_and_construct<type_manager_t<Decay>>([value] (void *where) {
+            type_manager_t<Decay>::copy_construct(value, where);
+        });
     }
 
     static void move_construct(void *value, variant_type_storage &storage)
         noexcept(std::is_nothrow_move_constructible_v<Base>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::move_or_copy(value, storage.ptr);
+        storage.ptr = allocate_and_construct<type_manager_t<Decay>>([value] (void *where) {
+            type_manager_t<Decay>::move_or_copy(value, where);
+        });
     }
 
     static void copy(variant_type_storage const &src, variant_type_storage &dst)
         noexcept(std::is_nothrow_copy_constructible_v<Base>)
     {
-        dst.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(src.ptr, dst.ptr);
+        dst.ptr = allocate_and_construct<type_manager_t<Decay>>([&src] (void *where) {
+            type_manager_t<Decay>::copy_construct(src.ptr, where);
+        });
     }
 
     static void move(variant_type_storage &src, variant_type_storage &dst) noexcept
diff --git a/src/metatype.cpp b/src/metatype.cpp
index 1c94c70..282c85c 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -292,12 +292,20 @@ bool MetaType::compare_eq(void const *lhs, void const *rhs) const
 void* MetaType::construct(void *copy, bool movable) const
 {
     auto result = allocate();
-    if (!copy)
-        default_construct(result);
-    else if (!movable)
-        copy_construct(copy, result);
-    else
-        move_or_copy(copy, result);
+    try
+    {
+        if (!copy)
+            default_construct(result);
+        else if (!movable)
+            copy_construct(copy, result);
+        else
+            move_or_copy(copy, result);
+    }
+    catch (...)
+    {
+        deallocate(result);
+        throw;
+    }
 
     return result;
 }
-- 
2.43.0


From 856b66c8d1feee18c6d2b6713d7c4157b63d9fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 08/31] fix: destroy the result of a conversion which has
 reported a failure

---
 include/rtti/metatype.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 64bfba6..0511398 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -691,6 +691,8 @@ struct RTTI_PRIVATE ConvertFunctorOk: ConvertFunctionBase
         auto from = static_cast<From const*>(in);
         auto result = false;
         new (out) To(_this.m_func(*from, result));
+        if (!result)
+            type_manager_t<To>::destroy(out);
         return result;
     }
 
@@ -753,6 +755,8 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
         auto from = static_cast<From const*>(in);
         auto result = false;
         new (out) To((from->*_this.m_func)(result));
+        if (!result)
+            type_manager_t<To>::destroy(out);
         return result;
     }
 
-- 
2.43.0


From 42ba0833e4629105d7209c93cd551cc46429b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 09/31] fix: respect alignment of the types with extended
 alignment

---
 include/rtti/detail/variant_impl.h |  2 +-
 include/rtti/metatype.h            | 28 ++++++++++++++++++++++++----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index b3a327f..b0932f2 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -5,7 +5,7 @@ namespace rtti {
 
 namespace internal {
 
-template<typename T, bool Small = sizeof(T) <= STORAGE_SIZE>
+template<typename T, bool Small = (sizeof(T) <= STORAGE_SIZE) && (alignof(T) <= STORAGE_ALIGN)>
 using is_inplace = std::integral_constant<bool, Small>;
 
 template<typename T>
diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 0511398..79574b5 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -11,6 +11,7 @@
 #include <rtti/tagged_id.h>
 
 #include <memory>
+#include <new>
 
 namespace rtti {
 
@@ -222,18 +223,37 @@ struct RTTI_PRIVATE type_function_table
     {}
 };
 
+// Extended alignment should be requested explicitly
+template<typename T>
+inline void* aligned_allocate(std::size_t size)
+{
+    if constexpr(alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+        return ::operator new(size, std::align_val_t{alignof(T)});
+    else
+        return ::operator new(size);
+}
+
+template<typename T>
+inline void aligned_deallocate(void *ptr)
+{
+    if constexpr(alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+        ::operator delete(ptr, std::align_val_t{alignof(T)});
+    else
+        ::operator delete(ptr);
+}
+
 template<typename T>
 struct type_function_table_impl
 {
     static void* allocate()
     {
-        return ::operator new(sizeof(T));
+        return aligned_allocate<T>(sizeof(T));
     }
 
     static void deallocate(void *ptr)
     {
         if (ptr)
-            ::operator delete(ptr);
+            aligned_deallocate<T>(ptr);
     }
 
     DISABLE_WARNINGS_PUSH
@@ -318,13 +338,13 @@ struct type_function_table_impl<T[N]>
 
     static void* allocate()
     {
-        return ::operator new(Length*sizeof(Base));
+        return aligned_allocate<Base>(Length*sizeof(Base));
     }
 
     static void deallocate(void *ptr)
     {
         if (ptr)
-            ::operator delete(ptr);
+            aligned_deallocate<Base>(ptr);
     }
 
     static void default_construct([[maybe_unused]] void *where)
-- 
2.43.0


From 797f599c65f4f46dcaac3df0d4bf27dc1631d1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 10/31] fix: make variant equality symmetric, never compare an
 array with a pointer

---
 src/variant.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index 14f474c..44339a5 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -98,19 +98,21 @@ bool variant::operator==(variant const &value) const
     auto mt_left  = MetaType{this->internalTypeId(type_attribute::LREF_CONST)};
     auto mt_right = MetaType{value.internalTypeId(type_attribute::LREF_CONST)};
 
-    if (MetaType::compatible(mt_right, mt_left))
-    {
-        if (mt_right.decayId() == mt_left.decayId())
-        {
-            auto ptr = value.raw_data_ptr();
-            if (mt_right.isArray())
-                ptr = *reinterpret_cast<void const *const *>(ptr);
+    // Constness doesn't affect equality
+    if (mt_right.decayId() != mt_left.decayId())
+        return false;
 
-            return manager->f_compare_eq(storage, ptr);
-        }
-    }
+    // Array is never equal to a pointer or to an array with another length
+    if (mt_right.isArray() != mt_left.isArray())
+        return false;
+    if (mt_right.isArray() && mt_right.typeSize() != mt_left.typeSize())
+        return false;
+
+    auto ptr = value.raw_data_ptr();
+    if (mt_right.isArray())
+        ptr = *reinterpret_cast<void const *const *>(ptr);
 
-    return false;
+    return manager->f_compare_eq(storage, ptr);
 }
 
 variant variant::get_property(std::string_view name) const
-- 
2.43.0


From e54825c596fe1a4c378c7ba2fc3a9985d4f41a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 11/31] fix: don't terminate on comparing arrays of non
 comparable elements

---
 include/rtti/detail/variant_impl.h | 4 ++--
 include/rtti/metatype.h            | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index b0932f2..8d7c201 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -186,7 +186,7 @@ struct variant_function_table_impl<T, true, true>
     { /* do nothing */ }
 
     static bool compare_eq(variant_type_storage const &lhs, void const *rhs)
-        noexcept(has_nt_eq_v<Decay, Decay>)
+        noexcept(has_nt_eq_v<std::remove_all_extents_t<Decay>, std::remove_all_extents_t<Decay>>)
     {
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
@@ -338,7 +338,7 @@ struct variant_function_table_impl<T[N], false, false>
     }
 
     static bool compare_eq(variant_type_storage const &lhs, void const *rhs)
-        noexcept(has_nt_eq_v<Decay, Decay>)
+        noexcept(has_nt_eq_v<Base, Base>)
     {
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 79574b5..7f50a9d 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -412,10 +412,10 @@ struct type_function_table_impl<T[N]>
     }
 
     static bool compare_eq(void const *lhs, void const *rhs)
-        noexcept(has_nt_eq_v<T, T>)
+        noexcept(has_nt_eq_v<Base, Base>)
     {
         using namespace std::literals;
-        if constexpr(has_eq_v<T, T>)
+        if constexpr(has_eq_v<Base, Base>)
         {
             if (lhs == rhs)
                 return true;
@@ -427,7 +427,7 @@ struct type_function_table_impl<T[N]>
             auto *first2 = static_cast<Base const*>(rhs);
             return std::equal(first1, last1, first2);
         }
-        else throw runtime_error("Type T = "s + type_name<T>() + "isn't EQ_Comparable");
+        else throw runtime_error("Type T = "s + type_name<Base>() + "isn't EQ_Comparable");
     }
 
 };
-- 
2.43.0


From 0b5bc986c7b2628ad2dd3522141e1038e599dc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 12/31] fix: hash variants by value, so equal variants have
 equal hashes

---
 include/rtti/detail/variant_impl.h | 32 ++++++++++++++++++++++--------
 include/rtti/metatype.h            | 19 ++++++++++++++++++
 include/rtti/variant.h             | 12 +++++++----
 3 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 8d7c201..4886a20 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -126,6 +126,11 @@ struct variant_function_table_impl<T, true, false>
     {
         return type_manager_t<Decay>::compare_eq(&lhs.buffer, rhs);
     }
+
+    static std::size_t hash(variant_type_storage const &value) noexcept
+    {
+        return type_manager_t<Decay>::hash(&value.buffer);
+    }
 private:
     using U = std::remove_cv_t<T>;
     using ULref = std::add_lvalue_reference_t<U>;
@@ -191,6 +196,11 @@ struct variant_function_table_impl<T, true, true>
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
 
+    static std::size_t hash(variant_type_storage const &value) noexcept
+    {
+        return type_manager_t<Decay>::hash(value.ptr);
+    }
+
 private:
     using Wrapper = remove_all_cv_t<T>;
     using U = unwrap_reference_t<Wrapper>;
@@ -268,6 +278,11 @@ struct variant_function_table_impl<T, false, false>
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
 
+    static std::size_t hash(variant_type_storage const &value) noexcept
+    {
+        return type_manager_t<Decay>::hash(value.ptr);
+    }
+
 private:
     using U = std::remove_cv_t<T>;
     using ULref = std::add_lvalue_reference_t<U>;
@@ -342,6 +357,11 @@ struct variant_function_table_impl<T[N], false, false>
     {
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
+
+    static std::size_t hash(variant_type_storage const &value) noexcept
+    {
+        return type_manager_t<Decay>::hash(value.ptr);
+    }
 private:
     using U = Decay;
     using ULref = std::add_lvalue_reference_t<U>;
@@ -415,6 +435,7 @@ inline variant_function_table const* variant_function_table_for() noexcept
         &variant_function_table_impl<T>::move,
         &variant_function_table_impl<T>::destroy,
         &variant_function_table_impl<T>::compare_eq,
+        &variant_function_table_impl<T>::hash,
         &class_info_get<T>::info
     };
     return &result;
@@ -432,6 +453,7 @@ inline variant_function_table const* variant_function_table_for<void>() noexcept
         [] (variant_type_storage&, variant_type_storage&) noexcept {},
         [] (variant_type_storage&) noexcept {},
         [] (variant_type_storage const&, void const*) noexcept -> bool { return false; },
+        [] (variant_type_storage const&) noexcept -> std::size_t { return 0; },
         [] (variant_type_storage const&) noexcept { return ClassInfo(); }
     };
     return &result;
@@ -449,6 +471,7 @@ inline variant_function_table const* variant_function_table_for<variant>() noexc
         [] (variant_type_storage&, variant_type_storage&) noexcept {},
         [] (variant_type_storage&) noexcept {},
         [] (variant_type_storage const&, void const*) noexcept -> bool { return false; },
+        [] (variant_type_storage const&) noexcept -> std::size_t { return 0; },
         [] (variant_type_storage const&) noexcept { return ClassInfo(); }
     };
     return &result;
@@ -591,14 +614,7 @@ struct hash<rtti::variant>: public std::__hash_base<std::size_t, rtti::variant>
 {
     std::size_t operator()(rtti::variant const &value) const noexcept
     {
-        if (!value)
-            return 0;
-
-        auto type = rtti::MetaType{value.typeId()};
-        auto ptr = value.raw_data_ptr({});
-        if (type.isArray())
-            ptr = *reinterpret_cast<void const * const *>(ptr);
-        return _Hash_impl::hash(ptr, type.typeSize());
+        return value.hash({});
     }
 };
 
diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 7f50a9d..dc72fa9 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -10,6 +10,7 @@
 #include <rtti/typename.h>
 #include <rtti/tagged_id.h>
 
+#include <functional>
 #include <memory>
 #include <new>
 
@@ -328,6 +329,15 @@ struct type_function_table_impl
         }
         else throw runtime_error("Type T = "s + type_name<T>() + "isn't EQ_comparable");
     }
+
+    // Equal values must have equal hashes, so object representation can't be used
+    static std::size_t hash([[maybe_unused]] void const *value) noexcept
+    {
+        if constexpr(std::is_default_constructible_v<std::hash<T>>)
+            return std::hash<T>{}(*static_cast<T const*>(value));
+        else
+            return 0;
+    }
 };
 
 template<typename T, std::size_t N>
@@ -430,6 +440,15 @@ struct type_function_table_impl<T[N]>
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't EQ_Comparable");
     }
 
+    static std::size_t hash(void const *value) noexcept
+    {
+        std::size_t result = Length;
+        auto *it = static_cast<Base const*>(value);
+        for (auto *end = it + Length; it != end; ++it)
+            result = result * 31 + type_function_table_impl<Base>::hash(it);
+        return result;
+    }
+
 };
 
 template <typename T>
diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index 1231aed..085dabc 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -43,6 +43,7 @@ namespace internal {
         using move_t           = void (*)(variant_type_storage &, variant_type_storage &);
         using destroy_t        = void (*)(variant_type_storage &);
         using compare_eq_t     = bool (*)(variant_type_storage const &, void const *);
+        using hash_t           = std::size_t (*)(variant_type_storage const &);
         using info_t           = ClassInfo (*)(variant_type_storage const &);
 
         type_t const f_type                     = nullptr;
@@ -53,11 +54,13 @@ namespace internal {
         move_t const f_move                     = nullptr;
         destroy_t const f_destroy               = nullptr;
         compare_eq_t const f_compare_eq         = nullptr;
+        hash_t const f_hash                     = nullptr;
         info_t const f_info                     = nullptr;
 
         variant_function_table(type_t type, access_t access, copy_construct_t copy_construct,
                                move_construct_t move_construct, copy_t copy, move_t move,
-                               destroy_t destroy, compare_eq_t compare_eq, info_t info) noexcept
+                               destroy_t destroy, compare_eq_t compare_eq, hash_t hash,
+                               info_t info) noexcept
             : f_type{type}
             , f_access{access}
             , f_copy_construct{copy_construct}
@@ -66,6 +69,7 @@ namespace internal {
             , f_move{move}
             , f_destroy{destroy}
             , f_compare_eq{compare_eq}
+            , f_hash{hash}
             , f_info(info)
         {}
     };
@@ -607,15 +611,15 @@ private:
 
 private:
     friend class rtti::argument;
-    DECLARE_ACCESS_KEY(RawPtrAccessKey)
+    DECLARE_ACCESS_KEY(HashAccessKey)
         friend struct std::hash<rtti::variant>;
     };
     DECLARE_ACCESS_KEY(SwapAccessKey)
         friend void swap(variant&, variant&) noexcept;
     };
 public:
-    void const* raw_data_ptr(RawPtrAccessKey) const noexcept
-    { return raw_data_ptr(); }
+    std::size_t hash(HashAccessKey) const noexcept
+    { return manager->f_hash(storage); }
     void swap(variant &other, SwapAccessKey) noexcept
     { swap(other); }
 };
-- 
2.43.0


From 6de65d1e4735d57c42d4bf8457f1d25d00021db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 13/31] fix: compare arrays with converted values as pointers
 in variant::eq

---
 include/rtti/detail/variant_impl.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 4886a20..4702306 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -510,18 +510,28 @@ bool variant::eq(T const &value) const
     auto mt_self = MetaType{internalTypeId(type_attribute::NONE)};
     auto mt_value = MetaType{metaTypeId<T>()};
 
+    // Converters work with decayed types, arrays are converted as pointers
+    using Decay = full_decay_t<T>;
+
     if (MetaType::hasConverter(mt_self, mt_value))
     {
-        std::aligned_storage_t<sizeof(T), alignof(T)> buffer;
+        std::aligned_storage_t<sizeof(Decay), alignof(Decay)> buffer;
         if (MetaType::convert(raw_data_ptr(), mt_self, &buffer, mt_value))
         {
-            FINALLY { type_manager_t<T>::destroy(&buffer); };
-            return type_manager_t<T>::compare_eq(std::addressof(value), &buffer);
+            FINALLY { type_manager_t<Decay>::destroy(&buffer); };
+            if constexpr(std::is_array_v<T>)
+            {
+                std::decay_t<T const&> ptr = value;
+                return type_manager_t<Decay>::compare_eq(&ptr, &buffer);
+            }
+            else
+                return type_manager_t<Decay>::compare_eq(std::addressof(value), &buffer);
         }
     }
 
     if (MetaType::hasConverter(mt_value, mt_self))
     {
+        mt_self = MetaType{mt_self.decayId()};
         auto *buffer = mt_self.allocate();
         FINALLY { mt_self.deallocate(buffer); };
 
@@ -534,10 +544,7 @@ bool variant::eq(T const &value) const
         if (MetaType::convert(address, mt_value, buffer, mt_self))
         {
             FINALLY { mt_self.destroy(buffer); };
-            auto ptr = raw_data_ptr();
-            if (mt_self.isArray())
-                ptr = *reinterpret_cast<void const *const *>(ptr);
-            return mt_self.compare_eq(ptr, buffer);
+            return mt_self.compare_eq(raw_data_ptr(), buffer);
         }
     }
 
-- 
2.43.0


From c660bf28f91ca8fcacd637bb3d09415d3fad07c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 14/31] fix: refuse to access a member through a variant which
 isn't an instance

---
 include/rtti/metadefine.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index 45fb437..e59dfdb 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -75,6 +75,13 @@ std::conditional_t<std::is_void_v<typename mpl::function_traits<F>::result_type>
 
 template<typename F, typename Tag> struct method_invoker;
 
+template<typename ClassRef>
+inline bad_variant_cast bad_instance(MetaType type)
+{
+    using namespace std::literals;
+    return bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " + type_name<ClassRef>()};
+}
+
 using argument_array_t = std::array<argument const*, IMethodInvoker::MaxNumberOfArguments>;
 
 inline argument_array_t pack_arguments(std::size_t count,
@@ -304,6 +311,8 @@ private:
         }
         else if (type.isClassPtr())
             (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
+        else
+            throw bad_instance<class_ref_t>(type);
 
         return variant::empty_variant;
     }
@@ -317,6 +326,8 @@ private:
             (instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...);
         else if (type.isClassPtr())
             (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
+        else
+            throw bad_instance<class_ref_t>(type);
 
         return variant::empty_variant;
     }
@@ -418,7 +429,7 @@ private:
         else if (type.isClassPtr())
             return reference_get((instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...));
 
-        return variant::empty_variant;
+        throw bad_instance<class_ref_t>(type);
     }
 
     template<std::size_t ...I>
@@ -431,7 +442,7 @@ private:
         else if (type.isClassPtr())
             return reference_get((instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...));
 
-        return variant::empty_variant;
+        throw bad_instance<class_ref_t>(type);
     }
 };
 
@@ -698,7 +709,8 @@ struct property_invoker<P, member_pointer>
             return std::ref(instance.ref<C const>().*property);
         else if (type.isClassPtr())
             return std::ref(instance.to<C const *>()->*property);
-        return variant::empty_variant;
+
+        throw bad_instance<class_ref_t>(type);
     }
 
     static void set_field(P property, variant const &instance, argument const &arg)
@@ -714,6 +726,8 @@ struct property_invoker<P, member_pointer>
                                        type_name<class_ref_t>()};
             else if (type.isClassPtr())
                 instance.to<C*>()->*property = arg.value<T>();
+            else
+                throw bad_instance<class_ref_t>(type);
         }
     }
 
@@ -728,6 +742,8 @@ struct property_invoker<P, member_pointer>
                 instance.ref<C>().*property = arg.value<T>();
             else if (type.isClassPtr())
                 instance.to<C*>()->*property = arg.value<T>();
+            else
+                throw bad_instance<class_ref_t>(type);
         }
     }
 private:
-- 
2.43.0


From de51508bf5a8c3b42a69c6fa6801771b0182ea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 15/31] fix: don't dereference a null class pointer held by a
 variant

---
 include/rtti/detail/variant_impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 4702306..8ccea75 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -406,6 +406,8 @@ struct class_info_get
                 if constexpr(is_registered::value)
                 {
                     auto ptr = reinterpret_cast<C const * const *>(instance);
+                    if (!*ptr)
+                        return ClassInfo{metaTypeId<C>(), nullptr};
                     return (*ptr)->classInfo();
                 }
                 else
-- 
2.43.0


From 6219fea5695984f656f50734f32332f774c9dc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 16/31] fix: refuse to register a class under the name of
 another class

---
 src/metaclass.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index 29a4572..894d976 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -38,6 +38,10 @@ MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaTy
             result = const_cast<MetaClass *>(owner.getClass(name));
         }
     }
+
+    if (result && result->metaTypeId() != typeId)
+        throw duplicate_metaclass{"Class name "s + result->qualifiedName()
+                                  + " is already taken by: " + MetaType{result->metaTypeId()}.typeName()};
     return result;
 }
 
-- 
2.43.0


From c8520b8c76c863f4ac05fd13277ab45959db33de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 17/31] fix: leave the scope stack untouched when a definition
 fails

---
 include/rtti/metadefine.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index e59dfdb..0ca9882 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -870,8 +870,9 @@ public:
         static_assert(std::is_void_v<T>, "Namespace can be defined only in another namespace");
         assert(m_currentContainer && m_currentContainer->category() == mcatNamespace && m_containerStack);
 
+        auto *container = MetaNamespace::create(name, *m_currentContainer, {});
         m_containerStack->push(m_currentContainer);
-        m_currentContainer = MetaNamespace::create(name, *m_currentContainer, {});
+        m_currentContainer = container;
         m_currentItem = m_currentContainer;
         return meta_define<void, this_t>{m_currentItem, m_currentContainer, m_containerStack};
     }
@@ -885,9 +886,10 @@ public:
                       "Class can be defined in namespace or anther class");
         assert(m_currentContainer && m_containerStack);
 
-        m_containerStack->push(m_currentContainer);
-        m_currentContainer = MetaClass::create(
+        auto *container = MetaClass::create(
             name, *m_currentContainer, metaTypeId<C>(), {});
+        m_containerStack->push(m_currentContainer);
+        m_currentContainer = container;
         m_currentItem = m_currentContainer;
 
         meta_define<C, this_t> result {m_currentItem, m_currentContainer, m_containerStack};
-- 
2.43.0


From a2d639989947ca52db532ab51e09627b3dd69183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 18/31] fix: register a class and bind its type atomically

---
 src/metaclass.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index 894d976..bd4d457 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -3,6 +3,7 @@
 
 #include <rtti/metaerror.h>
 #include <cassert>
+#include <mutex>
 
 namespace rtti {
 
@@ -25,21 +26,30 @@ MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaTy
         if (!type.valid())
             throw invalid_metatype_id{"Invalid MetaType_ID: "s + std::to_string(typeId.value())};
         auto &metaClass = type.typeInfo({})->metaClass;
-        if (metaClass)
+
+        // Check and registration should be atomic
+        static std::mutex mutex;
+        std::lock_guard lock{mutex};
+
+        if (auto *registered = metaClass.load())
+        {
+            if (registered->owner() == &owner && registered->name() == name)
+                return registered;
             throw duplicate_metaclass{"Class "s + type.typeName() + " already registered as: "
-                                      + metaClass.load()->qualifiedName()};
+                                      + registered->qualifiedName()};
+        }
 
         result = new MetaClass(name, owner, typeId);
-        if (INVOKE_PROTECTED(owner, addItem, result))
-            metaClass.store(result);
-        else
+        if (!INVOKE_PROTECTED(owner, addItem, result))
         {
             delete result;
-            result = const_cast<MetaClass *>(owner.getClass(name));
+            throw duplicate_metaclass{"Class name "s + name + " is already taken in: "
+                                      + owner.qualifiedName()};
         }
+        metaClass.store(result);
     }
 
-    if (result && result->metaTypeId() != typeId)
+    if (result->metaTypeId() != typeId)
         throw duplicate_metaclass{"Class name "s + result->qualifiedName()
                                   + " is already taken by: " + MetaType{result->metaTypeId()}.typeName()};
     return result;
-- 
2.43.0


From 0d9933da5c9ca7789a49077822b9ac651c3f5cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 19/31] fix: build qualified names once, they were cached
 without synchronization

---
 src/metaitem.cpp         | 18 ++++++------------
 src/private/metaitem_p.h | 12 ++++--------
 2 files changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/metaitem.cpp b/src/metaitem.cpp
index 79f45ed..f37b3e5 100644
--- a/src/metaitem.cpp
+++ b/src/metaitem.cpp
@@ -44,18 +44,12 @@ namespace internal {
 // MetaItemPrivate
 //--------------------------------------------------------------------------------------------------------------------------------
 
-inline std::string MetaItemPrivate::makeQualifiedName() const
-{
-    std::string result = m_owner ? m_owner->qualifiedName() : "";
-    return std::move(result) + (m_owner ? "::" + m_name : "");
-}
-
-inline std::string const& MetaItemPrivate::qualifiedName() const
-{
-    if (m_qualifiedName.empty())
-        m_qualifiedName = makeQualifiedName();
-    return m_qualifiedName;
-}
+// Name and owner never change, so qualified name can be safely shared between threads
+MetaItemPrivate::MetaItemPrivate(std::string_view name, MetaContainer const &owner)
+    : m_name(name)
+    , m_owner(&owner)
+    , m_qualifiedName(owner.qualifiedName() + "::" + m_name)
+{}
 
 MetaItemPrivate::~MetaItemPrivate() = default;
 
diff --git a/src/private/metaitem_p.h b/src/private/metaitem_p.h
index 9de38ba..426b4d0 100644
--- a/src/private/metaitem_p.h
+++ b/src/private/metaitem_p.h
@@ -96,10 +96,7 @@ public:
         : m_name(name)
     {}
 
-    MetaItemPrivate(std::string_view name, MetaContainer const &owner)
-        : m_name(name)
-        , m_owner(&owner)
-    {}
+    MetaItemPrivate(std::string_view name, MetaContainer const &owner);
 
     virtual ~MetaItemPrivate();
 
@@ -108,15 +105,14 @@ protected:
     { return m_name; }
     MetaContainer const *owner() const
     { return m_owner; }
-    std::string const &qualifiedName() const;
+    std::string const &qualifiedName() const
+    { return m_qualifiedName; }
 
 private:
-    std::string makeQualifiedName() const;
-
     std::string const m_name;
     MetaContainer const *m_owner = nullptr;
     internal::NamedVariantList m_attributes;
-    mutable std::string m_qualifiedName = {};
+    std::string const m_qualifiedName = {};
 
     friend class rtti::MetaItem;
 };
-- 
2.43.0


From 60a987652e03232b1dabc5da9a8f608d5c7986e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 20/31] fix: don't hold the list locked while running callbacks
 and definitions

---
 src/metacontainer.cpp         | 18 +++++++++---------
 src/private/metaclass_p.h     |  8 ++++++--
 src/private/metacontainer_p.h |  8 +++++---
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index 2bacc45..2487100 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -43,7 +43,7 @@ bool MetaItemList::add(MetaItem *value)
     return false;
 }
 
-inline MetaItem* MetaItemList::get(std::size_t index) const
+MetaItem* MetaItemList::get(std::size_t index) const
 {
     std::shared_lock<std::shared_mutex> lock{m_lock};
     if (index < m_items.size())
@@ -174,19 +174,19 @@ void MetaContainer::forceDeferredDefine(ForceDeferred type) const
     {
         checkDeferredDefine();
         auto d = d_func();
-        d->m_classes.for_each([](MetaItem *item)
+
+        // Definition can register new items, they should be defined too
+        for (std::size_t i = 0; i < d->m_classes.size(); ++i)
         {
-            auto *c = static_cast<MetaClass const*>(item);
+            auto *c = static_cast<MetaClass const*>(d->m_classes.get(i));
             c->forceDeferredDefine(ForceDeferred::Recursive);
-            return true;
-        });
+        }
 
-        d->m_namespaces.for_each([](MetaItem const *item)
+        for (std::size_t i = 0; i < d->m_namespaces.size(); ++i)
         {
-            auto *ns = static_cast<MetaContainer const*>(item);
+            auto *ns = static_cast<MetaContainer const*>(d->m_namespaces.get(i));
             ns->forceDeferredDefine(ForceDeferred::Recursive);
-            return true;
-        });
+        }
     }
 }
 
diff --git a/src/private/metaclass_p.h b/src/private/metaclass_p.h
index d7f5c77..6b3d33c 100644
--- a/src/private/metaclass_p.h
+++ b/src/private/metaclass_p.h
@@ -97,8 +97,12 @@ namespace internal {
     template<typename F>
     inline void BaseClassList::for_each(F &&func) const
     {
-        std::shared_lock lock{m_lock};
-        for (auto const &item: m_items)
+        // List isn't locked while function is running, since function can add new items
+        auto const items = [this] {
+            std::shared_lock lock{m_lock};
+            return m_items;
+        }();
+        for (auto const &item: items)
         {
             if (!func(item))
                 break;
diff --git a/src/private/metacontainer_p.h b/src/private/metacontainer_p.h
index 63ee7a9..ed3605b 100644
--- a/src/private/metacontainer_p.h
+++ b/src/private/metacontainer_p.h
@@ -36,10 +36,12 @@ private:
 template<typename F>
 inline void MetaItemList::for_each(F &&func) const
 {
-    std::shared_lock lock{m_lock};
-    for(auto &item: m_items)
+    // Items are never removed. List isn't locked while function is running,
+    // since function can register new items
+    auto const count = size();
+    for (std::size_t i = 0; i < count; ++i)
     {
-        if (!func(item.get()))
+        if (!func(get(i)))
             break;
     }
 }
-- 
2.43.0


From fb481b63da5d4be5aba2b661995b5e3988f63675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 21/31] fix: wait for a deferred definition which is running in
 another thread

---
 src/metacontainer.cpp         | 27 ++++++++++++++++++++++++---
 src/private/metacontainer_p.h |  3 ++-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index 2487100..e605289 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -8,6 +8,7 @@
 #include <rtti/finally.h>
 
 #include <algorithm>
+#include <mutex>
 #include <cassert>
 
 namespace rtti {
@@ -141,26 +142,46 @@ MetaContainer::MetaContainer(MetaContainerPrivate &value)
 // Lazy definition
 //--------------------------------------------------------------------------------------------------------------------------------
 
+namespace {
+
+// The only mutex for all deferred definitions, since they can depend on each other.
+// Recursive, since definition can access the container being defined.
+std::recursive_mutex& deferredDefineMutex()
+{
+    static std::recursive_mutex result;
+    return result;
+}
+
+} // namespace
+
 void MetaContainer::setDeferredDefine(std::unique_ptr<IDefinitionCallbackHolder> callback)
 {
+    std::lock_guard lock{deferredDefineMutex()};
+
     auto d = d_func();
     if (d->m_deferredDefine)
         throw definition_error{"Metacontainer " + qualifiedName() +
                                " already has deferred definition"};
     d->m_deferredDefine = std::move(callback);
+    d->m_deferredDefine_pending.store(true, std::memory_order_release);
 }
 
 void MetaContainer::checkDeferredDefine() const
 {
     auto d = d_func();
-    if (!d->m_deferredDefine)
+    if (!d->m_deferredDefine_pending.load(std::memory_order_acquire))
         return;
-    if (d->m_deferredDefine_lock.exchange(true, std::memory_order_acquire))
+
+    // Wait until definition is finished by another thread
+    std::lock_guard lock{deferredDefineMutex()};
+    if (!d->m_deferredDefine || d->m_deferredDefine_running)
         return;
 
+    d->m_deferredDefine_running = true;
     FINALLY{
         d->m_deferredDefine = nullptr;
-        d->m_deferredDefine_lock.store(false, std::memory_order_release);
+        d->m_deferredDefine_running = false;
+        d->m_deferredDefine_pending.store(false, std::memory_order_release);
     };
 
     d->m_deferredDefine->invoke(*const_cast<MetaContainer*>(this));
diff --git a/src/private/metacontainer_p.h b/src/private/metacontainer_p.h
index ed3605b..b9de684 100644
--- a/src/private/metacontainer_p.h
+++ b/src/private/metacontainer_p.h
@@ -75,7 +75,8 @@ private:
          &m_methods, &m_enums, &m_constructors}
     };
 
-    mutable std::atomic_bool m_deferredDefine_lock = false;
+    mutable std::atomic_bool m_deferredDefine_pending = false;
+    mutable bool m_deferredDefine_running = false;
     mutable std::unique_ptr<IDefinitionCallbackHolder> m_deferredDefine;
 
     friend class rtti::MetaContainer;
-- 
2.43.0


From e0e9d878b49e64a1edb7b071dd7d89594b458bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 22/31] fix: use the converter being registered, not the first
 one of the same type

---
 include/rtti/metatype.h | 44 +++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index dc72fa9..6eb5e93 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -10,8 +10,10 @@
 #include <rtti/typename.h>
 #include <rtti/tagged_id.h>
 
+#include <forward_list>
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <new>
 
 namespace rtti {
@@ -803,6 +805,23 @@ private:
     func_t const m_func;
 };
 
+// Keeps every registered converter, registry refers to them until they are unregistered
+template<typename Converter>
+class ConverterStorage
+{
+public:
+    template<typename Func>
+    Converter const& add(Func &&func)
+    {
+        std::lock_guard lock{m_lock};
+        return m_items.emplace_front(std::forward<Func>(func));
+    }
+
+private:
+    std::mutex m_lock;
+    std::forward_list<Converter> m_items;
+};
+
 } // namespace internal
 
 
@@ -817,18 +836,21 @@ inline bool MetaType::hasConverter() noexcept
 template<typename From, typename To, typename Func>
 inline bool MetaType::registerConverter_imp(Func &&func)
 {
+    if (hasConverter<From, To>())
+        return false;
+
     using Fu = full_decay_t<Func>;
     auto constexpr is_functorOk = std::is_invocable_r_v<To, Func, From, bool&>;
 
     if constexpr(is_functorOk)
     {
-        static internal::ConvertFunctorOk<From, To, Fu> converter{std::forward<Func>(func)};
-        return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
+        static internal::ConverterStorage<internal::ConvertFunctorOk<From, To, Fu>> storage;
+        return registerConverter(metaTypeId<From>(), metaTypeId<To>(), storage.add(std::forward<Func>(func)));
     }
     else
     {
-        static internal::ConvertFunctor<From, To, Fu> converter{std::forward<Func>(func)};
-        return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
+        static internal::ConverterStorage<internal::ConvertFunctor<From, To, Fu>> storage;
+        return registerConverter(metaTypeId<From>(), metaTypeId<To>(), storage.add(std::forward<Func>(func)));
     }
 }
 
@@ -858,8 +880,11 @@ inline bool MetaType::registerConverter()
 template<typename From, typename To>
 inline bool MetaType::registerConverter_imp(To(From::*func)() const)
 {
-    static internal::ConvertMethod<From, To> converter{func};
-    return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
+    if (hasConverter<From, To>())
+        return false;
+
+    static internal::ConverterStorage<internal::ConvertMethod<From, To>> storage;
+    return registerConverter(metaTypeId<From>(), metaTypeId<To>(), storage.add(func));
 }
 
 template<typename From, typename To>
@@ -875,8 +900,11 @@ inline bool MetaType::registerConverter(To(From::*func)() const)
 template<typename From, typename To>
 inline bool MetaType::registerConverter_imp(To(From::*func)(bool&) const)
 {
-    static internal::ConvertMethodOk<From, To> converter{func};
-    return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
+    if (hasConverter<From, To>())
+        return false;
+
+    static internal::ConverterStorage<internal::ConvertMethodOk<From, To>> storage;
+    return registerConverter(metaTypeId<From>(), metaTypeId<To>(), storage.add(func));
 }
 
 template<typename From, typename To>
-- 
2.43.0


From 9492b1bbc0f3cc9f9f9e21522844c8a55718ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 23/31] fix: keep pointee constness of arrays of pointers

---
 include/rtti/detail/variant_impl.h |  2 +-
 include/rtti/misc_traits.h         | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 8ccea75..42ece21 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -363,7 +363,7 @@ struct variant_function_table_impl<T[N], false, false>
         return type_manager_t<Decay>::hash(value.ptr);
     }
 private:
-    using U = Decay;
+    using U = std::remove_cv_t<T[N]>;
     using ULref = std::add_lvalue_reference_t<U>;
     using URref = std::add_rvalue_reference_t<U>;
     using UConstLref = std::add_lvalue_reference_t<std::add_const_t<U>>;
diff --git a/include/rtti/misc_traits.h b/include/rtti/misc_traits.h
index 2c6339e..2169291 100644
--- a/include/rtti/misc_traits.h
+++ b/include/rtti/misc_traits.h
@@ -76,6 +76,11 @@ struct pointer_arity<T, true>:
     std::integral_constant<std::size_t, pointer_arity_v<std::remove_pointer_t<T>> + 1>
 {};
 
+// Array has arity of its element
+template<typename T, std::size_t N>
+struct pointer_arity<T[N], false>: pointer_arity<T>
+{};
+
 //-----------------------------------------------------------------------------------------------------------------------------
 
 template<typename T, bool = std::is_pointer_v<T>>
@@ -201,18 +206,19 @@ struct const_bitset_helper<T, I, true, false>:
 
 template<typename T, std::size_t I>
 struct const_bitset_helper<T, I, false, true>:
-    std::integral_constant<std::size_t, const_bitset_helper_v<std::remove_pointer_t<T>, I - 1>>
+    std::integral_constant<std::size_t, const_bitset_helper_v<std::remove_all_extents_t<std::remove_pointer_t<T>>, I - 1>>
 {};
 
 template<typename T, std::size_t I>
 struct const_bitset_helper<T, I, true, true>:
-    std::integral_constant<std::size_t, (1 << I) + const_bitset_helper_v<std::remove_pointer_t<T>, I - 1>>
+    std::integral_constant<std::size_t, (1 << I) + const_bitset_helper_v<std::remove_all_extents_t<std::remove_pointer_t<T>>, I - 1>>
 {};
 
 } // namespace internal
 
+// Array has constness of its element
 template<typename T>
-using const_bitset = internal::const_bitset_helper<T, pointer_arity<T>::value>;
+using const_bitset = internal::const_bitset_helper<std::remove_all_extents_t<T>, pointer_arity<T>::value>;
 
 //-----------------------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 801568edc7014bf87335c4ae487b2c66f8197ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 24/31] fix: an array isn't compatible with its element

---
 src/metatype.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metatype.cpp b/src/metatype.cpp
index 282c85c..b359e37 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -169,13 +169,17 @@ bool MetaType::compatible(MetaType fromType, MetaType toType) noexcept
     if (fromType.isLvalueReference() && toType.isRvalueReference())
         return false;
 
+    // nothing but array can be viewed as array
+    if (!fromType.isArray() && toType.isArray())
+        return false;
+
     // check array length
     if (fromType.isArray() && toType.isArray() && (fromType.typeSize() < toType.typeSize()))
         return false;
 
     // decay array to pointer
     auto arity1 = fromType.m_typeInfo->arity;
-    if (fromType.isArray() && toType.isPointer())
+    if (fromType.isArray() && !toType.isArray())
         ++arity1;
 
     // compare pointer arity
-- 
2.43.0


From edd4c760a6a9384939fc1c8a996748156ec10c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 25/31] fix: failed reopening of a class leaves the definition
 scope unchanged

---
 include/rtti/metadefine.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index 0ca9882..b9977cc 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -888,14 +888,16 @@ public:
 
         auto *container = MetaClass::create(
             name, *m_currentContainer, metaTypeId<C>(), {});
-        m_containerStack->push(m_currentContainer);
-        m_currentContainer = container;
-        m_currentItem = m_currentContainer;
 
-        meta_define<C, this_t> result {m_currentItem, m_currentContainer, m_containerStack};
+        // Can throw, if reopened class has deferred definition. The scope should be unchanged in that case
+        meta_define<C, this_t> result {container, container, m_containerStack};
         result.define_default_constructor();
         result.define_copy_constructor();
         result.define_move_constructor();
+
+        m_containerStack->push(m_currentContainer);
+        m_currentContainer = container;
+        m_currentItem = m_currentContainer;
         return result;
     }
 
-- 
2.43.0


From 5251700aea0c394a315a69247be1d61cfe6e3f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 26/31] fix: arguments of metamethods: mutable arrays,
 move-only values and variants

---
 include/rtti/detail/argument_impl.h | 44 +++++++++++++++++++----------
 include/rtti/variant.h              |  9 ++++++
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/include/rtti/detail/argument_impl.h b/include/rtti/detail/argument_impl.h
index 5738973..5247907 100644
--- a/include/rtti/detail/argument_impl.h
+++ b/include/rtti/detail/argument_impl.h
@@ -9,6 +9,19 @@ argument::argument(T &&value) noexcept
     , m_value{std::ref(value)}
 {}
 
+// copy or conversion
+template<typename T>
+T argument::to() const
+{
+    if (!holdsVariant<T>())
+        return m_value.to<T>();
+
+    // Only constant variant makes its content constant
+    if (auto *value = m_value.data<variant>())
+        return value->to<T>();
+    return m_value.cref<variant>().to<T>();
+}
+
 // rvalue reference
 template<typename T>
 T argument::value(std::integral_constant<int, 0>) const
@@ -20,7 +33,7 @@ T argument::value(std::integral_constant<int, 0>) const
         throw bad_variant_cast{"Incompatible argument cast from LValue to RValue reference"};
 
     auto *value = &m_value;
-    if (isVariant())
+    if (holdsVariant<Decay>())
         value = &m_value.ref<variant>();
 
 #if defined (DEBUG)
@@ -31,7 +44,11 @@ T argument::value(std::integral_constant<int, 0>) const
     if (auto *data = value->data<Decay>())
         return std::move(*data);
 
-    m_dummy = value->to<Decay>();
+    // Can't be converted, and its copy can't be held by another one
+    if constexpr(std::is_same_v<Decay, variant>)
+        throw bad_variant_cast{"Incompatible argument cast to RValue reference"};
+
+    m_dummy = to<Decay>();
     auto *ptr = m_dummy.raw_data_ptr();
     return std::move(*static_cast<Decay*>(const_cast<void*>(ptr)));
 }
@@ -43,7 +60,7 @@ T argument::value(std::integral_constant<int, 1>) const
     using Decay = std::decay_t<T>;
 
     auto const *value = &m_value;
-    if (isVariant())
+    if (holdsVariant<Decay>())
         value = &m_value.cref<variant>();
 
 #if defined (DEBUG)
@@ -53,7 +70,7 @@ T argument::value(std::integral_constant<int, 1>) const
     if (auto *data = value->data<Decay>())
         return *data;
 
-    m_dummy = value->to<Decay>();
+    m_dummy = to<Decay>();
     auto *ptr = m_dummy.raw_data_ptr();
     return *static_cast<Decay const*>(ptr);
 }
@@ -69,7 +86,7 @@ T argument::value(std::integral_constant<int, 2>) const
         throw bad_variant_cast{"Incompatible argument cast from RValue to non cost LValue reference"};
 
     auto *value = &m_value;
-    if (isVariant())
+    if (holdsVariant<Decay>())
         value = &m_value.ref<variant>();
 
 #if defined (DEBUG)
@@ -84,19 +101,16 @@ T argument::value(std::integral_constant<int, 2>) const
 template<typename T>
 T argument::value(std::integral_constant<int, 3>) const
 {
-    using namespace std::literals;
     using Decay = std::decay_t<T>;
 
-    auto const *value = &m_value;
-    if (isVariant())
-        value = &m_value.cref<variant>();
-
-#if defined (DEBUG)
-    auto fromType = MetaType{value->typeId()};
-    auto toType = metaType<Decay>();
-#endif
+    // There is no other way to pass such an argument
+    if constexpr(!std::is_copy_constructible_v<Decay> && std::is_move_constructible_v<Decay>)
+    {
+        if (m_rvalue)
+            return value<Decay&&>(std::integral_constant<int, 0>{});
+    }
 
-    return value->to<Decay>();
+    return to<Decay>();
 }
 
 template<typename T>
diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index 085dabc..edfed3e 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -656,6 +656,15 @@ private:
     bool isVariant() const
     { return MetaType{m_value.typeId()}.decayId() == metaTypeId<variant>(); }
 
+    // Parameter of type variant gets the variant itself, any other one gets its content
+    template<typename Decay>
+    bool holdsVariant() const
+    { return !std::is_same_v<Decay, variant> && isVariant(); }
+
+    // copy or conversion
+    template<typename T>
+    T to() const;
+
     // rvalue reference
     template<typename T>
     T value(std::integral_constant<int, 0>) const;
-- 
2.43.0


From 51bce9adafb37aa11e7a138297e13d5ff186130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 27/31] fix: callbacks of attribute and element enumeration run
 without the lock held

---
 src/private/metaitem_p.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/private/metaitem_p.h b/src/private/metaitem_p.h
index 426b4d0..6fbdac9 100644
--- a/src/private/metaitem_p.h
+++ b/src/private/metaitem_p.h
@@ -72,10 +72,12 @@ namespace internal {
     template<typename F>
     inline void NamedVariantList::for_each(F &&func) const
     {
-        std::shared_lock lock{m_lock};
-        for (auto const &item: m_items)
+        // Items are never removed. List isn't locked while function is running,
+        // since function can set new items
+        auto const count = size();
+        for (std::size_t i = 0; i < count; ++i)
         {
-            if (!func(item->name, item->value))
+            if (!func(name(i), get(i)))
                 break;
         }
     }
-- 
2.43.0


From fd1453bde72a68f3cc892d73d58ee3fbcaea7ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 28/31] fix: a class found in its container is also found by
 type

---
 include/rtti/metacontainer.h  |  2 +-
 src/metaclass.cpp             |  5 +++--
 src/metacontainer.cpp         | 12 +++++++-----
 src/private/metacontainer_p.h |  5 +++--
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/rtti/metacontainer.h b/include/rtti/metacontainer.h
index ae3b321..c22e71d 100644
--- a/include/rtti/metacontainer.h
+++ b/include/rtti/metacontainer.h
@@ -86,7 +86,7 @@ protected:
     RTTI_PRIVATE explicit MetaContainer(std::string_view name, MetaContainer const &owner);
     RTTI_PRIVATE explicit MetaContainer(MetaContainerPrivate &value);
 
-    RTTI_PRIVATE bool addItem(MetaItem *value);
+    RTTI_PRIVATE bool addItem(MetaItem *value, std::function<void()> const &added = {});
     RTTI_PRIVATE std::size_t count(MetaCategory category) const;
     RTTI_PRIVATE MetaItem const* item(MetaCategory category, std::size_t index) const;
     RTTI_PRIVATE MetaItem const* item(MetaCategory category, std::string_view name) const;
diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index bd4d457..a6adc85 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -40,13 +40,14 @@ MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaTy
         }
 
         result = new MetaClass(name, owner, typeId);
-        if (!INVOKE_PROTECTED(owner, addItem, result))
+        // Class found in its container should be found by its type as well
+        auto added = [&metaClass, result] { metaClass.store(result); };
+        if (!INVOKE_PROTECTED(owner, addItem, result, added))
         {
             delete result;
             throw duplicate_metaclass{"Class name "s + name + " is already taken in: "
                                       + owner.qualifiedName()};
         }
-        metaClass.store(result);
     }
 
     if (result->metaTypeId() != typeId)
diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index e605289..c3a0ca2 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -19,7 +19,7 @@ namespace internal {
 // MetaItemList
 //--------------------------------------------------------------------------------------------------------------------------------
 
-bool MetaItemList::add(MetaItem *value)
+bool MetaItemList::add(MetaItem *value, std::function<void()> const &added)
 {
     if (!value)
         return false;
@@ -39,6 +39,8 @@ bool MetaItemList::add(MetaItem *value)
         auto index = m_items.size();
         m_items.emplace_back(value);
         m_names.emplace(name, index);
+        if (added)
+            added();
         return true;
     }
     return false;
@@ -77,13 +79,13 @@ std::size_t MetaItemList::size() const
 // MetaContainerPrivate
 //--------------------------------------------------------------------------------------------------------------------------------
 
-inline bool MetaContainerPrivate::addItem(MetaItem *value)
+inline bool MetaContainerPrivate::addItem(MetaItem *value, std::function<void()> const &added)
 {
     if (!value)
         return false;
 
     auto category = value->category();
-    return m_lists[category]->add(value);
+    return m_lists[category]->add(value, added);
 }
 
 MetaItem* MetaContainerPrivate::findMethod(MetaCategory category, std::string_view name) const
@@ -215,10 +217,10 @@ void MetaContainer::forceDeferredDefine(ForceDeferred type) const
 // Common items
 //--------------------------------------------------------------------------------------------------------------------------------
 
-bool MetaContainer::addItem(MetaItem *value)
+bool MetaContainer::addItem(MetaItem *value, std::function<void()> const &added)
 {
     auto d = d_func();
-    return d->addItem(value);
+    return d->addItem(value, added);
 }
 
 std::size_t MetaContainer::count(MetaCategory category) const
diff --git a/src/private/metacontainer_p.h b/src/private/metacontainer_p.h
index b9de684..16ae0a0 100644
--- a/src/private/metacontainer_p.h
+++ b/src/private/metacontainer_p.h
@@ -21,7 +21,8 @@ public:
 
     using item_t = std::unique_ptr<MetaItem, MetaItemDeleter>;
 
-    bool add(MetaItem *value);
+    // Function is called before anyone can see new item
+    bool add(MetaItem *value, std::function<void()> const &added);
     MetaItem* get(std::size_t index) const;
     MetaItem* get(std::string_view name) const;
     std::size_t size() const;
@@ -60,7 +61,7 @@ public:
     MetaItem* item(MetaCategory category, std::string_view name) const
     { return m_lists[category]->get(name); }
 protected:
-    bool addItem(MetaItem *value);
+    bool addItem(MetaItem *value, std::function<void()> const &added);
     MetaItem* findMethod(MetaCategory category, std::string_view name) const;
 
 private:
-- 
2.43.0


From e632b336306293505e54abe775a0ce941cbcefd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 29/31] fix: constructors from references and move-only values
 can be declared

---
 include/rtti/metadefine.h  | 2 +-
 include/rtti/misc_traits.h | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index b9977cc..44f03de 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -1066,7 +1066,7 @@ private:
     void register_converting_constructor(std::true_type)
     {
         using Arg = mpl::typelist_get_t<L, 0>;
-        MetaType::registerConverter(&internal::default_convert<Arg, T>);
+        MetaType::registerConverter(&internal::default_convert<full_decay_t<Arg> const&, T>);
     }
 
     template<typename, typename> friend struct internal::DefinitionCallbackHolder;
diff --git a/include/rtti/misc_traits.h b/include/rtti/misc_traits.h
index 2169291..307b635 100644
--- a/include/rtti/misc_traits.h
+++ b/include/rtti/misc_traits.h
@@ -228,7 +228,9 @@ struct is_converting_constructor: std::false_type
 
 template<typename T, typename Arg>
 struct is_converting_constructor<T, Arg>:
-    std::conditional_t<!std::is_same_v<T, full_decay_t<Arg>> && std::is_convertible_v<Arg, T>,
+    std::conditional_t<!std::is_same_v<T, full_decay_t<Arg>> && std::is_convertible_v<Arg, T>
+                       // converter gets its argument by reference to const
+                       && std::is_convertible_v<full_decay_t<Arg> const&, T>,
                        std::true_type, std::false_type>
 {};
 
-- 
2.43.0


From 18e2d87d39fe41f50dfdc38e17e1ed3765cf29be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:56 +0000
Subject: [PATCH 30/31] fix: types don't refer to destroyed classes

Classes are destroyed at exit before the types they belong to when a type was
asked for first; destructors running later found and used the destroyed class.
---
 include/rtti/metaclass.h |  2 ++
 src/metaclass.cpp        | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/rtti/metaclass.h b/include/rtti/metaclass.h
index aff8c50..1ac8c54 100644
--- a/include/rtti/metaclass.h
+++ b/include/rtti/metaclass.h
@@ -22,6 +22,8 @@ class RTTI_API MetaClass final: public MetaContainer
 public:
     using cast_func_t = void const*(*)(void const*);
 
+    ~MetaClass() override;
+
     MetaCategory category() const override;
     static MetaClass const* find(MetaType_ID typeId);
     static MetaClass const* find(std::string_view name);
diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index a6adc85..001bd11 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -15,6 +15,17 @@ MetaClass::MetaClass(std::string_view name, MetaContainer const &owner, MetaType
     : MetaContainer{*new MetaClassPrivate{name, owner, typeId}}
 {}
 
+MetaClass::~MetaClass()
+{
+    // Types can outlive classes
+    auto type = MetaType{metaTypeId()};
+    if (type.valid())
+    {
+        auto *self = this;
+        type.typeInfo({})->metaClass.compare_exchange_strong(self, nullptr);
+    }
+}
+
 MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaType_ID typeId)
 {
     using namespace std::literals;
-- 
2.43.0


From a23691849a36af860a7e46c09fbf5747eaae788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:56 +0000
Subject: [PATCH 31/31] fix: types outlive the global namespace

Classes refer to their types, but the registry of types was destroyed before
the global namespace when the latter was used first; looking at base classes
in a destructor running then crashed.
---
 src/metanamespace.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metanamespace.cpp b/src/metanamespace.cpp
index 42a2087..fcf7d53 100644
--- a/src/metanamespace.cpp
+++ b/src/metanamespace.cpp
@@ -8,7 +8,10 @@ namespace rtti {
 
 MetaNamespace::MetaNamespace()
     : MetaContainer{*new MetaNamespacePrivate{"global"}}
-{}
+{
+    // Classes refer to their types, so types should be destroyed after them
+    [[maybe_unused]] auto type = MetaType{MetaType_ID{}};
+}
 
 MetaNamespace const* MetaNamespace::global()
 {
-- 
2.43.0

