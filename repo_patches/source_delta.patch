From 53540e4020e38eeb55bba601fcad04572187c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 01/23] fix: deferred definitions run exactly once and are
 never seen half-done by other threads

---
 src/metacontainer.cpp         | 21 ++++++++++++++-------
 src/private/metacontainer_p.h |  6 +++++-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index 2bacc45..5aeb5dd 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -14,6 +14,8 @@ namespace rtti {
 
 namespace internal {
 
+std::recursive_mutex definitionMutex;
+
 //--------------------------------------------------------------------------------------------------------------------------------
 // MetaItemList
 //--------------------------------------------------------------------------------------------------------------------------------
@@ -144,26 +146,31 @@ MetaContainer::MetaContainer(MetaContainerPrivate &value)
 void MetaContainer::setDeferredDefine(std::unique_ptr<IDefinitionCallbackHolder> callback)
 {
     auto d = d_func();
-    if (d->m_deferredDefine)
+    std::lock_guard<std::recursive_mutex> lock{internal::definitionMutex};
+    if (d->m_deferredPending.load(std::memory_order_relaxed))
         throw definition_error{"Metacontainer " + qualifiedName() +
                                " already has deferred definition"};
     d->m_deferredDefine = std::move(callback);
+    d->m_deferredPending.store(d->m_deferredDefine != nullptr, std::memory_order_release);
 }
 
 void MetaContainer::checkDeferredDefine() const
 {
     auto d = d_func();
-    if (!d->m_deferredDefine)
-        return;
-    if (d->m_deferredDefine_lock.exchange(true, std::memory_order_acquire))
+    if (!d->m_deferredPending.load(std::memory_order_acquire))
         return;
 
+    // Other threads wait here until definition is completed
+    std::lock_guard<std::recursive_mutex> lock{internal::definitionMutex};
+    if (!d->m_deferredDefine)
+        return; // already defined or is being defined by this thread
+
+    auto callback = std::move(d->m_deferredDefine);
     FINALLY{
-        d->m_deferredDefine = nullptr;
-        d->m_deferredDefine_lock.store(false, std::memory_order_release);
+        d->m_deferredPending.store(false, std::memory_order_release);
     };
 
-    d->m_deferredDefine->invoke(*const_cast<MetaContainer*>(this));
+    callback->invoke(*const_cast<MetaContainer*>(this));
 }
 
 void MetaContainer::forceDeferredDefine(ForceDeferred type) const
diff --git a/src/private/metacontainer_p.h b/src/private/metacontainer_p.h
index 63ee7a9..b5afd39 100644
--- a/src/private/metacontainer_p.h
+++ b/src/private/metacontainer_p.h
@@ -2,6 +2,7 @@
 #define METACONTAINER_P_H
 
 #include <atomic>
+#include <mutex>
 
 #include "metaitem_p.h"
 #include <rtti/metacontainer.h>
@@ -9,6 +10,9 @@
 namespace rtti {
 namespace internal {
 
+// Serializes deferred definitions. Recursive since definition of one container can trigger definition of another one
+extern RTTI_PRIVATE std::recursive_mutex definitionMutex;
+
 class RTTI_PRIVATE MetaItemList
 {
 public:
@@ -73,7 +77,7 @@ private:
          &m_methods, &m_enums, &m_constructors}
     };
 
-    mutable std::atomic_bool m_deferredDefine_lock = false;
+    mutable std::atomic_bool m_deferredPending = false;
     mutable std::unique_ptr<IDefinitionCallbackHolder> m_deferredDefine;
 
     friend class rtti::MetaContainer;
-- 
2.43.0


From af3640ec10dd9ea758a72786648221aedb8c568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 02/23] fix: enumeration callbacks may use the registry (no
 lock held while calling back)

---
 src/private/metaclass_p.h     | 13 ++++++++++---
 src/private/metacontainer_p.h |  7 ++++---
 src/private/metaitem_p.h      |  7 ++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/private/metaclass_p.h b/src/private/metaclass_p.h
index d7f5c77..49b8093 100644
--- a/src/private/metaclass_p.h
+++ b/src/private/metaclass_p.h
@@ -90,6 +90,12 @@ namespace internal {
             return (search != std::end(m_items));
         }
 
+        item_t item(std::size_t index) const
+        {
+            std::shared_lock lock{m_lock};
+            return m_items[index];
+        }
+
         mutable std::shared_mutex m_lock;
         container_t m_items;
     };
@@ -97,10 +103,11 @@ namespace internal {
     template<typename F>
     inline void BaseClassList::for_each(F &&func) const
     {
-        std::shared_lock lock{m_lock};
-        for (auto const &item: m_items)
+        // Items are never removed, so the lock is not held while calling back
+        auto const count = this->count();
+        for (std::size_t i = 0; i < count; ++i)
         {
-            if (!func(item))
+            if (!func(item(i)))
                 break;
         }
     }
diff --git a/src/private/metacontainer_p.h b/src/private/metacontainer_p.h
index b5afd39..1fd7bd9 100644
--- a/src/private/metacontainer_p.h
+++ b/src/private/metacontainer_p.h
@@ -40,10 +40,11 @@ private:
 template<typename F>
 inline void MetaItemList::for_each(F &&func) const
 {
-    std::shared_lock lock{m_lock};
-    for(auto &item: m_items)
+    // Items are never removed, so the lock is not held while calling back
+    auto const count = size();
+    for (std::size_t i = 0; i < count; ++i)
     {
-        if (!func(item.get()))
+        if (!func(get(i)))
             break;
     }
 }
diff --git a/src/private/metaitem_p.h b/src/private/metaitem_p.h
index 9de38ba..e1b8eb5 100644
--- a/src/private/metaitem_p.h
+++ b/src/private/metaitem_p.h
@@ -72,10 +72,11 @@ namespace internal {
     template<typename F>
     inline void NamedVariantList::for_each(F &&func) const
     {
-        std::shared_lock lock{m_lock};
-        for (auto const &item: m_items)
+        // Items are never removed, so the lock is not held while calling back
+        auto const count = size();
+        for (std::size_t i = 0; i < count; ++i)
         {
-            if (!func(item->name, item->value))
+            if (!func(name(i), get(i)))
                 break;
         }
     }
-- 
2.43.0


From 785c6f13725a76c93f4bcd99090a9f6eec476fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 03/23] fix: qualifiedName() does not modify the item (data
 race)

---
 src/metaitem.cpp         | 4 +---
 src/private/metaitem_p.h | 3 ++-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/metaitem.cpp b/src/metaitem.cpp
index 79f45ed..c9db09a 100644
--- a/src/metaitem.cpp
+++ b/src/metaitem.cpp
@@ -44,7 +44,7 @@ namespace internal {
 // MetaItemPrivate
 //--------------------------------------------------------------------------------------------------------------------------------
 
-inline std::string MetaItemPrivate::makeQualifiedName() const
+std::string MetaItemPrivate::makeQualifiedName() const
 {
     std::string result = m_owner ? m_owner->qualifiedName() : "";
     return std::move(result) + (m_owner ? "::" + m_name : "");
@@ -52,8 +52,6 @@ inline std::string MetaItemPrivate::makeQualifiedName() const
 
 inline std::string const& MetaItemPrivate::qualifiedName() const
 {
-    if (m_qualifiedName.empty())
-        m_qualifiedName = makeQualifiedName();
     return m_qualifiedName;
 }
 
diff --git a/src/private/metaitem_p.h b/src/private/metaitem_p.h
index e1b8eb5..b68b125 100644
--- a/src/private/metaitem_p.h
+++ b/src/private/metaitem_p.h
@@ -100,6 +100,7 @@ public:
     MetaItemPrivate(std::string_view name, MetaContainer const &owner)
         : m_name(name)
         , m_owner(&owner)
+        , m_qualifiedName(makeQualifiedName())
     {}
 
     virtual ~MetaItemPrivate();
@@ -117,7 +118,7 @@ private:
     std::string const m_name;
     MetaContainer const *m_owner = nullptr;
     internal::NamedVariantList m_attributes;
-    mutable std::string m_qualifiedName = {};
+    std::string const m_qualifiedName = {};
 
     friend class rtti::MetaItem;
 };
-- 
2.43.0


From 6c794ef09eb4758c46667f293f605cb2b29b28e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 04/23] fix: concurrent registration cannot register one type
 as two classes

---
 src/metaclass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index 29a4572..e247491 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -18,6 +18,8 @@ MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaTy
 {
     using namespace std::literals;
 
+    // A type must not be registered twice, even by different names
+    std::lock_guard<std::recursive_mutex> lock{internal::definitionMutex};
     auto result = const_cast<MetaClass *>(owner.getClass(name));
     if (!result)
     {
-- 
2.43.0


From e69d855b7c88b1be6f628da329c7c2200190bc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 05/23] fix: members of a derived class are registered even if
 a base class has the same ones

---
 src/metamethod.cpp   | 10 ++++++++--
 src/metaproperty.cpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/metamethod.cpp b/src/metamethod.cpp
index ffa0762..af62f25 100644
--- a/src/metamethod.cpp
+++ b/src/metamethod.cpp
@@ -26,14 +26,20 @@ MetaMethod* MetaMethod::create(std::string_view name, MetaContainer &owner,
         return nullptr;
 
     auto signature = invoker->signature(name);
-    auto result = const_cast<MetaMethod*>(owner.getMethod(signature));
+    // Method of base class is hidden, not reused
+    auto find = [&owner, &signature]
+    {
+        return const_cast<MetaMethod*>(static_cast<MetaMethod const*>(
+            INVOKE_PROTECTED(owner, item, mcatMethod, std::string_view{signature})));
+    };
+    auto result = find();
     if (!result)
     {
         result = new MetaMethod{signature, owner, std::move(invoker)};
         if (!INVOKE_PROTECTED(owner, addItem, result))
         {
             delete result;
-            result = const_cast<MetaMethod*>(owner.getMethod(signature));
+            result = find();
         }
     }
     return result;
diff --git a/src/metaproperty.cpp b/src/metaproperty.cpp
index 1da43c8..49ab31b 100644
--- a/src/metaproperty.cpp
+++ b/src/metaproperty.cpp
@@ -18,14 +18,20 @@ MetaProperty* MetaProperty::create(std::string_view name, MetaContainer &owner,
     if (name.empty() || !invoker)
         return nullptr;
 
-    auto result = const_cast<MetaProperty*>(owner.getProperty(name));
+    // Property of base class is hidden, not reused
+    auto find = [&owner, name]
+    {
+        return const_cast<MetaProperty*>(static_cast<MetaProperty const*>(
+            INVOKE_PROTECTED(owner, item, mcatProperty, name)));
+    };
+    auto result = find();
     if (!result)
     {
         result = new MetaProperty{name, owner, std::move(invoker)};
         if (!INVOKE_PROTECTED(owner, addItem, result))
         {
             delete result;
-            result = const_cast<MetaProperty*>(owner.getProperty(name));
+            result = find();
         }
     }
     return result;
-- 
2.43.0


From 495282721f7c833cc28300d9535838922cd34d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 06/23] fix: failed registration of an item leaves the
 container unchanged and does not leak

---
 src/metacontainer.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index 5aeb5dd..e295c45 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -25,6 +25,7 @@ bool MetaItemList::add(MetaItem *value)
     if (!value)
         return false;
 
+    item_t added{value}; // destroyed if an exception is thrown
     std::unique_lock<std::shared_mutex> lock{m_lock};
     auto itemFound = (std::find_if(
                           std::cbegin(m_items), std::cend(m_items),
@@ -37,11 +38,19 @@ bool MetaItemList::add(MetaItem *value)
 
     if (!itemFound && !nameFound)
     {
-        auto index = m_items.size();
-        m_items.emplace_back(value);
-        m_names.emplace(name, index);
+        auto pos = m_names.emplace(name, m_items.size()).first;
+        try
+        {
+            m_items.push_back(std::move(added));
+        }
+        catch (...)
+        {
+            m_names.erase(pos);
+            throw;
+        }
         return true;
     }
+    added.release(); // still owned by the caller
     return false;
 }
 
-- 
2.43.0


From 6140ab1fcb5a8a08b8f8b759105835f2fa4e15ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 07/23] fix: setting an attribute or enum element is atomic and
 runs user code without the lock

---
 src/private/metaitem_p.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/private/metaitem_p.h b/src/private/metaitem_p.h
index b68b125..6d88530 100644
--- a/src/private/metaitem_p.h
+++ b/src/private/metaitem_p.h
@@ -55,18 +55,24 @@ namespace internal {
         if (name.empty())
             return;
 
+        // New value is copied and replaced one is destroyed without holding the lock
+        auto added = std::make_unique<named_variant>(name, std::forward<T>(value));
         std::unique_lock lock{m_lock};
         if (auto search = m_names.find(name); search == std::end(m_names))
         {
-            auto &item = m_items.emplace_back(new named_variant{name, std::forward<T>(value)});
-            m_names.emplace(item->name, m_items.size() - 1);
+            auto pos = m_names.emplace(added->name, m_items.size()).first;
+            try
+            {
+                m_items.push_back(std::move(added));
+            }
+            catch (...)
+            {
+                m_names.erase(pos);
+                throw;
+            }
         }
         else
-        {
-            auto index  = search->second;
-            auto &item  = m_items.at(index);
-            item->value = std::forward<T>(value);
-        }
+            swap(m_items.at(search->second)->value, added->value);
     }
 
     template<typename F>
-- 
2.43.0


From 5601e2acfb3576b83af6b70ab29614dbea309143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 08/23] fix: a failed addBaseClass() does not leave half of the
 relation behind

---
 src/metaclass.cpp         | 5 ++++-
 src/private/metaclass_p.h | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index e247491..07d97ad 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -102,9 +102,12 @@ void MetaClass::addBaseClass(MetaType_ID typeId, cast_func_t caster)
     if (!base)
         throw unregistered_metaclass{"Base class "s + type.typeName() + " not registered"};
 
+    // Both sides of the relation or none of them are recorded
     auto d = d_func();
-    d->m_baseClasses.add(typeId, caster);
+    std::lock_guard<std::recursive_mutex> lock{internal::definitionMutex};
+    d->m_baseClasses.reserve();
     base->addDerivedClass(d->m_typeId);
+    d->m_baseClasses.add(typeId, caster);
 }
 
 void MetaClass::addDerivedClass(MetaType_ID typeId)
diff --git a/src/private/metaclass_p.h b/src/private/metaclass_p.h
index 49b8093..5b1d699 100644
--- a/src/private/metaclass_p.h
+++ b/src/private/metaclass_p.h
@@ -52,6 +52,14 @@ namespace internal {
         using item_t      = std::pair<MetaType_ID, MetaClass::cast_func_t>;
         using container_t = std::vector<item_t>;
 
+        // Guarantees that next add() doesn't throw
+        void reserve()
+        {
+            std::unique_lock lock{m_lock};
+            if (m_items.size() == m_items.capacity())
+                m_items.reserve(m_items.size() * 2 + 1);
+        }
+
         void add(MetaType_ID value, MetaClass::cast_func_t func)
         {
             std::unique_lock lock{m_lock};
-- 
2.43.0


From b96c0f3d14bf089c155bcf20d8d5e1958daa1588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 09/23] fix: variant neither terminates nor leaks when storing
 a big value fails

---
 include/rtti/detail/variant_impl.h | 35 +++++++++++++++---------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 2ba1779..3b89a7b 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -43,6 +43,17 @@ struct unwrap_reference<T, true>: mpl::identity<typename T::type>
 template<typename T>
 using unwrap_reference_t = typename unwrap_reference<T>::type;
 
+// Neither leaks memory nor terminates if allocation or constructor fails
+template<typename T, typename F, typename P>
+inline void* construct_on_heap(F construct, P *source)
+{
+    auto *result = type_manager_t<T>::allocate();
+    FINALLY_EX(cleanup) { type_manager_t<T>::deallocate(result); };
+    construct(source, result);
+    cleanup.dismiss();
+    return result;
+}
+
 template<typename T,
          bool = is_inplace_v<std::remove_cv_t<T>>,
          bool = is_reference_wrapper_v<std::remove_cv_t<T>>
@@ -211,24 +222,18 @@ struct variant_function_table_impl<T, false, false>
     }
 
     static void copy_construct(void const *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_copy_constructible_v<Decay>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(value, storage.ptr);
+        storage.ptr = construct_on_heap<Decay>(&type_manager_t<Decay>::copy_construct, value);
     }
 
     static void move_construct(void *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_move_constructible_v<Decay>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::move_or_copy(value, storage.ptr);
+        storage.ptr = construct_on_heap<Decay>(&type_manager_t<Decay>::move_or_copy, value);
     }
 
     static void copy(variant_type_storage const &src, variant_type_storage &dst)
-        noexcept(std::is_nothrow_copy_constructible_v<Decay>)
     {
-        dst.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(src.ptr, dst.ptr);
+        dst.ptr = construct_on_heap<Decay>(&type_manager_t<Decay>::copy_construct, src.ptr);
     }
 
     static void move(variant_type_storage &src, variant_type_storage &dst) noexcept
@@ -283,24 +288,18 @@ struct variant_function_table_impl<T[N], false, false>
     }
 
     static void copy_construct(void const *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_copy_constructible_v<Base>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(value, storage.ptr);
+        storage.ptr = construct_on_heap<Decay>(&type_manager_t<Decay>::copy_construct, value);
     }
 
     static void move_construct(void *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_move_constructible_v<Base>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::move_or_copy(value, storage.ptr);
+        storage.ptr = construct_on_heap<Decay>(&type_manager_t<Decay>::move_or_copy, value);
     }
 
     static void copy(variant_type_storage const &src, variant_type_storage &dst)
-        noexcept(std::is_nothrow_copy_constructible_v<Base>)
     {
-        dst.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(src.ptr, dst.ptr);
+        dst.ptr = construct_on_heap<Decay>(&type_manager_t<Decay>::copy_construct, src.ptr);
     }
 
     static void move(variant_type_storage &src, variant_type_storage &dst) noexcept
-- 
2.43.0


From 78e7bcfc9481a099572fe79a80bfd0132324a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 10/23] fix: MetaType::construct() does not leak when the
 constructor throws

---
 src/metatype.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/metatype.cpp b/src/metatype.cpp
index 5c44784..31eee49 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -292,12 +292,20 @@ bool MetaType::compare_eq(void const *lhs, void const *rhs) const
 void* MetaType::construct(void *copy, bool movable) const
 {
     auto result = allocate();
-    if (!copy)
-        default_construct(result);
-    else if (!movable)
-        copy_construct(copy, result);
-    else
-        move_or_copy(copy, result);
+    try
+    {
+        if (!copy)
+            default_construct(result);
+        else if (!movable)
+            copy_construct(copy, result);
+        else
+            move_or_copy(copy, result);
+    }
+    catch (...)
+    {
+        deallocate(result);
+        throw;
+    }
 
     return result;
 }
-- 
2.43.0


From 16ed06e5a68b065eaf2a4b23e04f1706c9ebd7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 11/23] fix: variant keeps values with throwing move or big
 alignment on the heap

---
 include/rtti/detail/variant_impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 3b89a7b..cc66b69 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -5,8 +5,9 @@ namespace rtti {
 
 namespace internal {
 
-template<typename T, bool Small = sizeof(T) <= STORAGE_SIZE>
-using is_inplace = std::integral_constant<bool, Small>;
+// Inplace value should fit the storage and be movable between variants without exceptions
+template<typename T, bool Small = sizeof(T) <= STORAGE_SIZE && alignof(T) <= STORAGE_ALIGN>
+using is_inplace = std::integral_constant<bool, Small && std::is_nothrow_move_constructible_v<T>>;
 
 template<typename T>
 using is_inplace_t = typename is_inplace<T>::type;
-- 
2.43.0


From 916b6b1ca2b3888fc80834efd002ad5c7e1344e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 12/23] fix: array elements are constructed, not assigned to
 uninitialised memory

---
 include/rtti/metatype.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index e4ff728..66d0cd8 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -10,6 +10,8 @@
 #include <rtti/typename.h>
 #include <rtti/tagged_id.h>
 
+#include <memory>
+
 namespace rtti {
 
 namespace internal {
@@ -333,13 +335,7 @@ struct type_function_table_impl<T[N]>
         {
             if constexpr(!std::is_trivially_default_constructible_v<Base>)
                 if (where)
-                {
-                    auto *begin = static_cast<Base*>(where);
-                    auto *end = static_cast<Base*>(where) + Length;
-
-                    for (; begin != end; ++begin)
-                        new (begin) Base();
-                }
+                    std::uninitialized_value_construct_n(static_cast<Base*>(where), Length);
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't DefaultConstructible");
     }
@@ -353,7 +349,7 @@ struct type_function_table_impl<T[N]>
             if (source && where)
             {
                 auto *it = static_cast<Base const*>(source);
-                std::copy(it, it + Length, static_cast<Base*>(where));
+                std::uninitialized_copy(it, it + Length, static_cast<Base*>(where));
             }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't CopyConstructible");
@@ -368,7 +364,7 @@ struct type_function_table_impl<T[N]>
             if (source && where)
             {
                 auto *it = static_cast<Base*>(source);
-                std::move(it, it + Length, static_cast<Base*>(where));
+                std::uninitialized_move(it, it + Length, static_cast<Base*>(where));
             }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't MoveConstructible");
-- 
2.43.0


From 07625d41d3a5b2885a1727b1823dc4d005642557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 13/23] fix: converters reporting failure destroy their result,
 method converters compile

---
 include/rtti/metatype.h | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 66d0cd8..be622f1 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -687,11 +687,20 @@ struct RTTI_PRIVATE ConvertFunctorOk: ConvertFunctionBase
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
     {
-        auto &_this = static_cast<this_t const&>(self);
-        auto from = static_cast<From const*>(in);
-        auto result = false;
-        new (out) To(_this.m_func(*from, result));
-        return result;
+        try
+        {
+            auto &_this = static_cast<this_t const&>(self);
+            auto from = static_cast<From const*>(in);
+            auto result = false;
+            auto to = new (out) To(_this.m_func(*from, result));
+            if (!result)
+                to->~To();
+            return result;
+        }
+        catch (...)
+        {
+            return false;
+        }
     }
 
 private:
@@ -719,7 +728,7 @@ struct RTTI_PRIVATE ConvertMethod: ConvertFunctionBase
         {
             auto &_this = static_cast<this_t const&>(self);
             auto from = static_cast<From const*>(in);
-            new (out) To(from->*_this.m_func());
+            new (out) To((from->*_this.m_func)());
             return true;
         }
         catch (...)
@@ -749,11 +758,20 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
     {
-        auto &_this = static_cast<this_t const&>(self);
-        auto from = static_cast<From const*>(in);
-        auto result = false;
-        new (out) To(from->*_this.m_func(result));
-        return result;
+        try
+        {
+            auto &_this = static_cast<this_t const&>(self);
+            auto from = static_cast<From const*>(in);
+            auto result = false;
+            auto to = new (out) To((from->*_this.m_func)(result));
+            if (!result)
+                to->~To();
+            return result;
+        }
+        catch (...)
+        {
+            return false;
+        }
     }
 
 private:
-- 
2.43.0


From b12b4e7e1f7ed48848ddbbefa937299d23e569d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 14/23] fix: first use of a type may fail with bad_alloc
 without terminating

---
 include/rtti/detail/variant_impl.h | 4 ++--
 include/rtti/metatype.h            | 4 ++--
 include/rtti/variant.h             | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index cc66b69..1fb0b9f 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -418,7 +418,7 @@ template<>
 inline variant_function_table const* variant_function_table_for<variant>() noexcept
 {
     static auto const result = variant_function_table{
-        [] (type_attribute) noexcept -> MetaType_ID { return metaTypeId<variant>(); },
+        [] (type_attribute) -> MetaType_ID { return metaTypeId<variant>(); },
         [] (variant_type_storage const&) noexcept -> void const* { return nullptr; },
         [] (void const*, variant_type_storage&) noexcept {},
         [] (void*, variant_type_storage&) noexcept {},
@@ -566,7 +566,7 @@ namespace std {
 template<>
 struct hash<rtti::variant>: public std::__hash_base<std::size_t, rtti::variant>
 {
-    std::size_t operator()(rtti::variant const &value) const noexcept
+    std::size_t operator()(rtti::variant const &value) const
     {
         if (!value)
             return 0;
diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index be622f1..bc2db19 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -113,7 +113,7 @@ public:
     static bool hasConverter(MetaType fromType, MetaType toType) noexcept;
     static bool hasConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId) noexcept;
     template<typename From, typename To>
-    static bool hasConverter() noexcept;
+    static bool hasConverter();
 
     template<typename From, typename To, typename Func>
     static bool registerConverter(Func &&func);
@@ -782,7 +782,7 @@ private:
 
 
 template<typename From, typename To>
-inline bool MetaType::hasConverter() noexcept
+inline bool MetaType::hasConverter()
 {
     return hasConverter(metaTypeId<From>(), metaTypeId<To>());
 }
diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index 1231aed..0380372 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -119,7 +119,7 @@ public:
     bool neq(T const &value) const
     { return !eq(value); }
 
-    MetaType_ID typeId() const noexcept
+    MetaType_ID typeId() const
     { return internalTypeId(); }
     MetaClass const* metaClass() const
     {
@@ -341,9 +341,9 @@ private:
     void const* raw_data_ptr() const noexcept
     { return manager->f_access(storage); }
 
-    MetaType_ID internalTypeId(type_attribute attr = type_attribute::NONE) const noexcept
+    MetaType_ID internalTypeId(type_attribute attr = type_attribute::NONE) const
     { return manager->f_type(attr); }
-    ClassInfo classInfo() const noexcept
+    ClassInfo classInfo() const
     { return manager->f_info(storage); }
 
     void constructor(void *value, std::true_type)
-- 
2.43.0


From b05de356fc10b62ce5bd8e5fe7eb0a97fc91d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 15/23] fix: method or property access on a value that is no
 object raises an error

---
 include/rtti/metadefine.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index a9f7428..23483ea 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -75,6 +75,14 @@ std::conditional_t<std::is_void_v<typename mpl::function_traits<F>::result_type>
 
 template<typename F, typename Tag> struct method_invoker;
 
+// Value isn't an object or pointer to object
+template<typename C>
+[[noreturn]] inline void throw_invalid_instance(MetaType type)
+{
+    using namespace std::literals;
+    throw bad_variant_cast{"Incompatible types: "s + type.typeName() + " -> " + type_name<C>()};
+}
+
 using argument_array_t = std::array<argument const*, IMethodInvoker::MaxNumberOfArguments>;
 
 inline argument_array_t pack_arguments(std::size_t count,
@@ -304,6 +312,8 @@ private:
         }
         else if (type.isClassPtr())
             (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
+        else
+            throw_invalid_instance<class_t>(type);
 
         return variant::empty_variant;
     }
@@ -317,6 +327,8 @@ private:
             (instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...);
         else if (type.isClassPtr())
             (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
+        else
+            throw_invalid_instance<class_t>(type);
 
         return variant::empty_variant;
     }
@@ -418,7 +430,7 @@ private:
         else if (type.isClassPtr())
             return reference_get((instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...));
 
-        return variant::empty_variant;
+        throw_invalid_instance<class_t>(type);
     }
 
     template<std::size_t ...I>
@@ -431,7 +443,7 @@ private:
         else if (type.isClassPtr())
             return reference_get((instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...));
 
-        return variant::empty_variant;
+        throw_invalid_instance<class_t>(type);
     }
 };
 
@@ -698,7 +710,7 @@ struct property_invoker<P, member_pointer>
             return std::ref(instance.ref<C const>().*property);
         else if (type.isClassPtr())
             return std::ref(instance.to<C const *>()->*property);
-        return variant::empty_variant;
+        throw_invalid_instance<C>(type);
     }
 
     static void set_field(P property, variant const &instance, argument const &arg)
@@ -714,6 +726,8 @@ struct property_invoker<P, member_pointer>
                                        type_name<class_ref_t>()};
             else if (type.isClassPtr())
                 instance.to<C*>()->*property = arg.value<T>();
+            else
+                throw_invalid_instance<C>(type);
         }
     }
 
@@ -728,6 +742,8 @@ struct property_invoker<P, member_pointer>
                 instance.ref<C>().*property = arg.value<T>();
             else if (type.isClassPtr())
                 instance.to<C*>()->*property = arg.value<T>();
+            else
+                throw_invalid_instance<C>(type);
         }
     }
 private:
-- 
2.43.0


From c9afba5cd495cb4ce77e14a4a4285c32f7363634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 16/23] fix: registering a method whose functor cannot be
 copied does not terminate

---
 include/rtti/metadefine.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index 23483ea..87d0abf 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -452,10 +452,12 @@ struct MethodInvoker: IMethodInvoker
 {
     using invoker_t = method_invoker<F, method_invoker_tag<F>>;
 
-    MethodInvoker(F const &func) noexcept
+    MethodInvoker(F const &func)
+        noexcept(std::is_nothrow_copy_constructible_v<F>)
         : m_func(func)
     {}
-    MethodInvoker(F &&func) noexcept
+    MethodInvoker(F &&func)
+        noexcept(std::is_nothrow_move_constructible_v<F>)
         : m_func(std::move(func))
     {}
 
-- 
2.43.0


From 43bc6d71d777d284a8e75755cbca52c9ad6a9d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 17/23] fix: signatures are not truncated when memory is
 exhausted

---
 include/rtti/signature.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/rtti/signature.h b/include/rtti/signature.h
index 7305282..c8ae1e3 100644
--- a/include/rtti/signature.h
+++ b/include/rtti/signature.h
@@ -55,12 +55,13 @@ struct signature
 {
     static std::string get(std::string_view name)
     {
-        std::ostringstream os;
-        auto it = prefix_ostream_iterator<std::string_view>{os, ", "};
-        os << name << '(';
-        (it = ... = type_name<Args>());
-        os << ')';
-        return os.str();
+        // Unlike streams, string reports failed allocation instead of truncating the result
+        std::string result{name};
+        [[maybe_unused]] char const *separator = "";
+        result += '(';
+        ((result.append(separator).append(type_name<Args>()), separator = ", "), ...);
+        result += ')';
+        return result;
     }
 };
 
-- 
2.43.0


From 5cfb83084026aa367e44f74f36c94c99f4d3d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 18/23] fix: class queries at exit never reach destroyed
 classes

---
 include/rtti/metaclass.h |  1 +
 src/metaclass.cpp        | 20 ++++++++++++--------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/rtti/metaclass.h b/include/rtti/metaclass.h
index aff8c50..80c87a9 100644
--- a/include/rtti/metaclass.h
+++ b/include/rtti/metaclass.h
@@ -33,6 +33,7 @@ public:
     bool inheritedFrom(MetaClass const *base) const;
 protected:
     RTTI_PRIVATE explicit MetaClass(std::string_view name, MetaContainer const &owner, MetaType_ID typeId);
+    RTTI_PRIVATE ~MetaClass() override;
     static MetaClass* create(std::string_view name, MetaContainer &owner, MetaType_ID typeId);
 
     void addBaseClass(MetaType_ID typeId, cast_func_t caster);
diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index 07d97ad..7777da1 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -14,6 +14,14 @@ MetaClass::MetaClass(std::string_view name, MetaContainer const &owner, MetaType
     : MetaContainer{*new MetaClassPrivate{name, owner, typeId}}
 {}
 
+MetaClass::~MetaClass()
+{
+    // Type information can outlive the class at exit
+    MetaClass *self = this;
+    if (auto *info = MetaType{metaTypeId()}.typeInfo({}))
+        info->metaClass.compare_exchange_strong(self, nullptr);
+}
+
 MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaType_ID typeId)
 {
     using namespace std::literals;
@@ -138,8 +146,7 @@ bool MetaClass::inheritedFrom(MetaClass const *base) const
     d->m_baseClasses.for_each([&result, base](auto const &item)
     {
         auto directBase = find(item.first);
-        assert(directBase);
-        if (directBase->inheritedFrom(base))
+        if (directBase && directBase->inheritedFrom(base))
         {
             result = true;
             return false;
@@ -164,8 +171,7 @@ void const* MetaClass::cast(MetaClass const *base, void const *instance) const
     d->m_baseClasses.for_each([&result, base, &found](auto const &item)
     {
         auto directBase = find(item.first);
-        assert(directBase);
-        if (directBase->inheritedFrom(base))
+        if (directBase && directBase->inheritedFrom(base))
         {
             // cast to direct base
             result = directBase->cast(base, item.second(result));
@@ -199,8 +205,7 @@ MetaMethod const* MetaClass::getMethodInternal(std::string_view name) const
     d->m_baseClasses.for_each([&result, &name, &found](item_t const &item)
     {
         auto directBase = find(item.first);
-        assert(directBase);
-        result = directBase->getMethodInternal(name);
+        result = directBase ? directBase->getMethodInternal(name) : nullptr;
         if (result)
         {
             found = true;
@@ -227,8 +232,7 @@ MetaProperty const* MetaClass::getPropertyInternal(std::string_view name) const
     d->m_baseClasses.for_each([&result, &name, &found](item_t const &item)
     {
         auto directBase = find(item.first);
-        assert(directBase);
-        result = directBase->getPropertyInternal(name);
+        result = directBase ? directBase->getPropertyInternal(name) : nullptr;
         if (result)
         {
             found = true;
-- 
2.43.0


From 34b0a421d83220d36c34188122da13793384806f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:13 +0000
Subject: [PATCH 19/23] fix: a deferred definition isn't lost when memory runs
 out before it starts

---
 include/rtti/metadefine.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index 87d0abf..9721dfb 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -44,8 +44,7 @@ struct DefinitionCallbackHolder: IDefinitionCallbackHolder
 
     void invoke(MetaContainer &container)
     {
-        container_stack_t stack;
-        m_func(meta_define<T, void>{&container, &container, &stack});
+        m_func(meta_define<T, void>{&container, &container, &m_stack});
     }
 
 private:
@@ -53,6 +52,7 @@ private:
     static_assert (std::is_invocable_v<F, meta_define_t>,
                    "Invalid lazy definition signature!");
     F m_func;
+    container_stack_t m_stack; // allocated here because definition can't be restarted
 };
 
 template<typename T, typename F>
-- 
2.43.0


From 2891f2354366a8030ed14a843f3b1c785fe6c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:07 +0000
Subject: [PATCH 20/23] fix: over-aligned values get memory aligned as their
 type requires

---
 include/rtti/metatype.h | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index bc2db19..52562ef 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -11,6 +11,7 @@
 #include <rtti/tagged_id.h>
 
 #include <memory>
+#include <new>
 
 namespace rtti {
 
@@ -222,18 +223,37 @@ struct RTTI_PRIVATE type_function_table
     {}
 };
 
+// Memory is aligned as type T requires
+template<typename T>
+inline void* allocate_memory(std::size_t size)
+{
+    if constexpr(alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+        return ::operator new(size, std::align_val_t{alignof(T)});
+    else
+        return ::operator new(size);
+}
+
+template<typename T>
+inline void deallocate_memory(void *ptr) noexcept
+{
+    if constexpr(alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+        ::operator delete(ptr, std::align_val_t{alignof(T)});
+    else
+        ::operator delete(ptr);
+}
+
 template<typename T>
 struct type_function_table_impl
 {
     static void* allocate()
     {
-        return ::operator new(sizeof(T));
+        return allocate_memory<T>(sizeof(T));
     }
 
     static void deallocate(void *ptr)
     {
         if (ptr)
-            ::operator delete(ptr);
+            deallocate_memory<T>(ptr);
     }
 
     DISABLE_WARNINGS_PUSH
@@ -318,13 +338,13 @@ struct type_function_table_impl<T[N]>
 
     static void* allocate()
     {
-        return ::operator new(Length*sizeof(Base));
+        return allocate_memory<Base>(Length*sizeof(Base));
     }
 
     static void deallocate(void *ptr)
     {
         if (ptr)
-            ::operator delete(ptr);
+            deallocate_memory<Base>(ptr);
     }
 
     static void default_construct([[maybe_unused]] void *where)
-- 
2.43.0


From a939a5f61a33b31b6b7bccbb76284ca5d7a66d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 21/23] fix: comparing arrays whose elements' comparison throws
 doesn't terminate

---
 include/rtti/detail/variant_impl.h | 8 ++++----
 include/rtti/metatype.h            | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 1fb0b9f..869267e 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -117,7 +117,7 @@ struct variant_function_table_impl<T, true, false>
     }
 
     static bool compare_eq(variant_type_storage const &lhs, void const *rhs)
-        noexcept(has_nt_eq_v<Decay, Decay>)
+        noexcept(has_nt_eq_v<std::remove_all_extents_t<Decay>, std::remove_all_extents_t<Decay>>)
     {
         return type_manager_t<Decay>::compare_eq(&lhs.buffer, rhs);
     }
@@ -181,7 +181,7 @@ struct variant_function_table_impl<T, true, true>
     { /* do nothing */ }
 
     static bool compare_eq(variant_type_storage const &lhs, void const *rhs)
-        noexcept(has_nt_eq_v<Decay, Decay>)
+        noexcept(has_nt_eq_v<std::remove_all_extents_t<Decay>, std::remove_all_extents_t<Decay>>)
     {
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
@@ -249,7 +249,7 @@ struct variant_function_table_impl<T, false, false>
     }
 
     static bool compare_eq(variant_type_storage const &lhs, void const *rhs)
-        noexcept(has_nt_eq_v<Decay, Decay>)
+        noexcept(has_nt_eq_v<std::remove_all_extents_t<Decay>, std::remove_all_extents_t<Decay>>)
     {
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
@@ -315,7 +315,7 @@ struct variant_function_table_impl<T[N], false, false>
     }
 
     static bool compare_eq(variant_type_storage const &lhs, void const *rhs)
-        noexcept(has_nt_eq_v<Decay, Decay>)
+        noexcept(has_nt_eq_v<std::remove_all_extents_t<Decay>, std::remove_all_extents_t<Decay>>)
     {
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 52562ef..3671a72 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -412,10 +412,10 @@ struct type_function_table_impl<T[N]>
     }
 
     static bool compare_eq(void const *lhs, void const *rhs)
-        noexcept(has_nt_eq_v<T, T>)
+        noexcept(has_nt_eq_v<Base, Base>)
     {
         using namespace std::literals;
-        if constexpr(has_eq_v<T, T>)
+        if constexpr(has_eq_v<Base, Base>)
         {
             if (lhs == rhs)
                 return true;
@@ -427,7 +427,7 @@ struct type_function_table_impl<T[N]>
             auto *first2 = static_cast<Base const*>(rhs);
             return std::equal(first1, last1, first2);
         }
-        else throw runtime_error("Type T = "s + type_name<T>() + "isn't EQ_Comparable");
+        else throw runtime_error("Type T = "s + type_name<Base>() + "isn't EQ_Comparable");
     }
 
 };
-- 
2.43.0


From 65f5d6097f71ea0b0810b44a7f635c6af30fddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:06 +0000
Subject: [PATCH 22/23] fix: class queries and casts of a null class pointer
 held by variant no longer dereference it

---
 include/rtti/detail/variant_impl.h | 3 ++-
 include/rtti/variant.h             | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 869267e..3f3e46f 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -363,7 +363,8 @@ struct class_info_get
                 if constexpr(is_registered::value)
                 {
                     auto ptr = reinterpret_cast<C const * const *>(instance);
-                    return (*ptr)->classInfo();
+                    return *ptr ? (*ptr)->classInfo()
+                                : ClassInfo{metaTypeId<C>(), nullptr};
                 }
                 else
                 {
diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index 0380372..e8f5229 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -572,7 +572,9 @@ private:
         {
             if (from.isClassPtr())
             {
-                if (auto ptr = cast_imp(self))
+                auto ptr = cast_imp(self);
+                // Null pointer to derived class is null pointer to base class
+                if (ptr || (!self.classInfo().instance && metafunc_is<T>::invoke(self, from.typeId())))
                 {
                     to.copy_construct(&ptr, buffer);
                     return true;
-- 
2.43.0


From de24e5c1a3b53b1830fbbcc6677b47230bf4f7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:23 +0000
Subject: [PATCH 23/23] fix: namespaces, classes and enums registered under an
 empty name are found by it

---
 src/metacontainer.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index e295c45..058586c 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -64,9 +64,6 @@ inline MetaItem* MetaItemList::get(std::size_t index) const
 
 inline MetaItem* MetaItemList::get(std::string_view name) const
 {
-    if (name.empty())
-        return nullptr;
-
     std::shared_lock<std::shared_mutex> lock{m_lock};
     if (auto it = m_names.find(name); it != std::end(m_names))
         if (auto index = it->second; index < m_items.size())
-- 
2.43.0

