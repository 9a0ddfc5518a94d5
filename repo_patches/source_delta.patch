From 43bebf3be9dc69a144ae463ac88c40ad662d4b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 1/8] fix: detect AddRemove permission of nested lock types in
 is_add_remove_allowed

DynamicLock::TryLock<AddRemove>() succeeded on a WriteAll lock because the nested
lock type passed to has_permissions() was never seen as an AddRemove lock.
---
 inc/Tecs_permissions.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/Tecs_permissions.hh b/inc/Tecs_permissions.hh
index decc83d..93f2133 100644
--- a/inc/Tecs_permissions.hh
+++ b/inc/Tecs_permissions.hh
@@ -131,13 +131,13 @@ namespace Tecs {
     struct is_write_allowed<T, const DynamicLock<ECSType, Permissions...>> : std::disjunction<is_write_allowed<T, Permissions>...> {};
 
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<Lock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<Lock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<const Lock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<const Lock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<DynamicLock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<DynamicLock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<const DynamicLock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<const DynamicLock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     // clang-format on
 
     // Check SubLock <= Lock for component type T
-- 
2.43.0


From 966ef6d098a8d59b23b2d5c8d91b07d0049f5e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 2/8] fix: remove all components from the same entity in
 Entity::Unset<A, B>()

If *this is an element of the entity list of the first component, removing it
reset the index used for the remaining components.
---
 inc/Tecs_entity.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_entity.hh b/inc/Tecs_entity.hh
index e8dfd80..94987ec 100644
--- a/inc/Tecs_entity.hh
+++ b/inc/Tecs_entity.hh
@@ -292,7 +292,11 @@ namespace Tecs {
             }
 #endif
 
-            (lock.template RemoveComponents<Tn>(index), ...);
+            // It is possible for *this to be a reference to a component's writeValidEntities list
+            // Copy the index before removing components so all of them are removed from the same entity.
+            size_t copy = index;
+
+            (lock.template RemoveComponents<Tn>(copy), ...);
         }
 
         template<typename LockType>
-- 
2.43.0


From 2053759889c3cf4d82bb3cecc7ba39af5e7ab654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 3/8] fix: don't add a missing global component in
 Lock::Get<const T>()

An immutable read with an AddRemove lock added the component without flagging it
as written, so the next reader saw a component without any storage.
---
 inc/Tecs_lock.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index 71a0ee0..d2d31f6 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -209,7 +209,7 @@ namespace Tecs {
 #endif
 
             auto &storage = instance.template Storage<CompType>();
-            if constexpr (is_add_remove_allowed<LockType>()) {
+            if constexpr (is_add_remove_allowed<LockType>() && !std::is_const<ReturnType>()) {
 #ifdef TECS_UNCHECKED_MODE
                 auto &metadata = permissions[0] ? instance.globalWriteMetadata : instance.globalReadMetadata;
 #endif
-- 
2.43.0


From 16823ba08e35aeb248ce5e6c68ed95431b4adb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 4/8] fix: include the first entity when iterating an
 EntityView in reverse

---
 inc/Tecs_entity_view.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 5c393f5..2ce6cfa 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -138,7 +138,7 @@ namespace Tecs {
         }
 
         inline reverse_iterator rend() const noexcept {
-            return reverse_iterator(iterator{*this, start_index + 1});
+            return reverse_iterator(iterator{*this, start_index});
         }
 
         inline reference operator[](size_type index) const {
-- 
2.43.0


From 7eae7c7c1da1f46ef104588b75e0a800a86c1998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 5/8] fix: overflow in EntityView::subview() with a default
 count

The end index wrapped around for any non-zero offset, so the sub-view was rejected
or, in unchecked mode, had an end index before its start index.
---
 inc/Tecs_entity_view.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 2ce6cfa..9b4ff79 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -162,7 +162,9 @@ namespace Tecs {
 #ifndef TECS_UNCHECKED_MODE
             if (storage == nullptr) throw std::runtime_error("EntityView::subview storage is null");
 #endif
-            return EntityView(*storage, start_index + offset, std::min(end_index, start_index + offset + count));
+            size_type start = start_index + std::min(offset, std::numeric_limits<size_type>::max() - start_index);
+            size_type end = start <= end_index ? start + std::min(count, end_index - start) : end_index;
+            return EntityView(*storage, start, end);
         }
 
     private:
-- 
2.43.0


From beca56eaa76fe8cf5a2c8779278b60f6f8b5319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 6/8] fix: keep entity metadata locked until all component
 lists are committed

A transaction without access to component T can still use EntitiesWith<T>(), which
raced with the commit swapping T's entity list after unlocking the metadata.
---
 inc/Tecs_transaction.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_transaction.hh b/inc/Tecs_transaction.hh
index b96fb2f..a9fdd48 100644
--- a/inc/Tecs_transaction.hh
+++ b/inc/Tecs_transaction.hh
@@ -247,7 +247,6 @@ namespace Tecs {
                         this->instance.metadata.readComponents.swap(this->instance.metadata.writeComponents);
                         this->instance.metadata.readValidEntities.swap(this->instance.metadata.writeValidEntities);
                         this->instance.globalReadMetadata = this->instance.globalWriteMetadata;
-                        this->instance.metadata.CommitUnlock();
                     }
                 }
                 ( // For each AllComponentTypes
@@ -267,6 +266,11 @@ namespace Tecs {
                         }
                     }(),
                     ...);
+                if constexpr (is_add_remove_allowed<LockType>()) {
+                    // Any transaction can read the list of entities with a component, so the entity metadata must stay
+                    // locked until all of the component's lists have been swapped as well.
+                    if (this->writeAccessedFlags[0]) this->instance.metadata.CommitUnlock();
+                }
             }
 
             ( // For each AllComponentTypes, reset the write storage to match read.
-- 
2.43.0


From 0828d5c0deb8eed1924c35ee359cdb999b427024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 7/8] fix: header-only mode did not compile without an instance
 id

Entity ids carry the instance id in every mode, but it only existed with the library.
---
 inc/Tecs.hh             | 4 ----
 inc/Tecs_transaction.hh | 2 ++
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/inc/Tecs.hh b/inc/Tecs.hh
index 1a027c7..6738a2a 100644
--- a/inc/Tecs.hh
+++ b/inc/Tecs.hh
@@ -31,9 +31,7 @@ namespace Tecs {
     class ECS {
     public:
         ECS() {
-#ifndef TECS_HEADER_ONLY
             ecsId = ++nextEcsId;
-#endif
         }
 
         /**
@@ -182,9 +180,7 @@ namespace Tecs {
         TraceInfo transactionTrace;
 #endif
 
-#ifndef TECS_HEADER_ONLY
         size_t ecsId;
-#endif
 
         template<typename, typename...>
         friend class Lock;
diff --git a/inc/Tecs_transaction.hh b/inc/Tecs_transaction.hh
index a9fdd48..203db00 100644
--- a/inc/Tecs_transaction.hh
+++ b/inc/Tecs_transaction.hh
@@ -29,6 +29,8 @@ namespace Tecs {
     extern thread_local size_t activeTransactionsCount;
     extern std::atomic_size_t nextEcsId;
     extern std::atomic_size_t nextTransactionId;
+#else
+    inline std::atomic_size_t nextEcsId(0);
 #endif
 
     /**
-- 
2.43.0


From bdc2775022d203f52b18a39cc8a72712152a7a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:57 +0000
Subject: [PATCH 8/8] fix: DynamicLock::TryLock() did not compile with 64 or
 more component types

---
 inc/Tecs_lock.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index d2d31f6..8a98ed4 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -468,8 +468,8 @@ namespace Tecs {
             if constexpr (Lock<ECS, StaticPermissions...>::template has_permissions<DynamicLockType>()) {
                 return DynamicLockType(this->instance, this->base, this->permissions);
             } else {
-                static constexpr auto requestedRead = generateReadBitset<DynamicLockType>();
-                static constexpr auto requestedWrite = generateWriteBitset<DynamicLockType>();
+                static const auto requestedRead = generateReadBitset<DynamicLockType>();
+                static const auto requestedWrite = generateWriteBitset<DynamicLockType>();
                 if ((requestedRead & readPermissions) == requestedRead &&
                     (requestedWrite & this->permissions) == requestedWrite) {
                     return DynamicLockType(this->instance, this->base, this->permissions);
-- 
2.43.0

