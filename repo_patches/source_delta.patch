From 3d5b141c9e67c997bbff597c3bf01b7644e9c5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 01/12] fix: EntityView::rend() skipped the first entity

A reverse iterator refers to the element before its base, so the end of the
reversed range is based on start_index.
---
 inc/Tecs_entity_view.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 5c393f5..2ce6cfa 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -138,7 +138,7 @@ namespace Tecs {
         }
 
         inline reverse_iterator rend() const noexcept {
-            return reverse_iterator(iterator{*this, start_index + 1});
+            return reverse_iterator(iterator{*this, start_index});
         }
 
         inline reference operator[](size_type index) const {
-- 
2.43.0


From 350f84c9c3f02a1ddd38b1b306e4d94209fc11ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 02/12] fix: EntityView::subview() end index overflowed for
 large counts

start_index + offset + count wrapped around for the default count, so that
subview(offset) with a non-zero offset threw or was empty.
---
 inc/Tecs_entity_view.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 2ce6cfa..6b065e5 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -162,7 +162,9 @@ namespace Tecs {
 #ifndef TECS_UNCHECKED_MODE
             if (storage == nullptr) throw std::runtime_error("EntityView::subview storage is null");
 #endif
-            return EntityView(*storage, start_index + offset, std::min(end_index, start_index + offset + count));
+            // Clamp before adding, the default count would overflow with any non-zero offset
+            size_type available = offset < size() ? size() - offset : 0;
+            return EntityView(*storage, start_index + offset, start_index + offset + std::min(count, available));
         }
 
     private:
-- 
2.43.0


From 41a52191b567c56fe0aab3b9f6718207ac1ba237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 03/12] fix: reading a missing global component as const added
 it

Lock::Get<const T>() of an AddRemove lock created the global component without
marking it as written: the presence bit was committed but not the value. As with
entity components, only a mutable Get() adds the component.
---
 inc/Tecs_lock.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index 71a0ee0..d2d31f6 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -209,7 +209,7 @@ namespace Tecs {
 #endif
 
             auto &storage = instance.template Storage<CompType>();
-            if constexpr (is_add_remove_allowed<LockType>()) {
+            if constexpr (is_add_remove_allowed<LockType>() && !std::is_const<ReturnType>()) {
 #ifdef TECS_UNCHECKED_MODE
                 auto &metadata = permissions[0] ? instance.globalWriteMetadata : instance.globalReadMetadata;
 #endif
-- 
2.43.0


From 064ac44b7ae030c6beaa492379414a56cdcc59cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 04/12] fix: DynamicLock<ECS, WriteAll>::TryLock<AddRemove>()
 was always granted

has_permissions<LockType>() nests a lock type in a lock type, but
is_add_remove_allowed only looked at the outermost permission list and so
ignored a nested AddRemove permission.
---
 inc/Tecs_permissions.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/Tecs_permissions.hh b/inc/Tecs_permissions.hh
index decc83d..93f2133 100644
--- a/inc/Tecs_permissions.hh
+++ b/inc/Tecs_permissions.hh
@@ -131,13 +131,13 @@ namespace Tecs {
     struct is_write_allowed<T, const DynamicLock<ECSType, Permissions...>> : std::disjunction<is_write_allowed<T, Permissions>...> {};
 
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<Lock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<Lock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<const Lock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<const Lock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<DynamicLock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<DynamicLock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<const DynamicLock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<const DynamicLock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     // clang-format on
 
     // Check SubLock <= Lock for component type T
-- 
2.43.0


From 7596eb05f7a12d27779c9c92558f483d8e96f6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 05/12] fix: Entity::Unset() of several components through a
 list reference

If *this is an element of a component's valid entity list it is cleared when
that component is removed, and the remaining components were then removed from
entity 0 instead.
---
 inc/Tecs_entity.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_entity.hh b/inc/Tecs_entity.hh
index e8dfd80..b82efdf 100644
--- a/inc/Tecs_entity.hh
+++ b/inc/Tecs_entity.hh
@@ -292,7 +292,9 @@ namespace Tecs {
             }
 #endif
 
-            (lock.template RemoveComponents<Tn>(index), ...);
+            // *this may be a reference into one of the valid entity lists, and is cleared if so.
+            size_t copy = index;
+            (lock.template RemoveComponents<Tn>(copy), ...);
         }
 
         template<typename LockType>
-- 
2.43.0


From 8ff4ba7ebaf68188fe64ffee3ed2b4ebc2077a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 06/12] fix: EntitiesWith<T>() raced with commits without
 permission on T

The list of entities with a component can be read without any permission on the
component, but was exchanged after the metadata commit lock had been released.
Exchange it while the metadata is locked for the commit.
---
 inc/Tecs_transaction.hh | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/inc/Tecs_transaction.hh b/inc/Tecs_transaction.hh
index b96fb2f..7690814 100644
--- a/inc/Tecs_transaction.hh
+++ b/inc/Tecs_transaction.hh
@@ -247,6 +247,15 @@ namespace Tecs {
                         this->instance.metadata.readComponents.swap(this->instance.metadata.writeComponents);
                         this->instance.metadata.readValidEntities.swap(this->instance.metadata.writeValidEntities);
                         this->instance.globalReadMetadata = this->instance.globalWriteMetadata;
+                        // The lists of valid entities can be read without any component permissions, so they are
+                        // protected by the metadata lock.
+                        ( // For each AllComponentTypes
+                            [&] {
+                                if (!this->instance.template BitsetHas<AllComponentTypes>(this->writeAccessedFlags)) return;
+                                auto &storage = this->instance.template Storage<AllComponentTypes>();
+                                storage.readValidEntities.swap(storage.writeValidEntities);
+                            }(),
+                            ...);
                         this->instance.metadata.CommitUnlock();
                     }
                 }
@@ -258,11 +267,6 @@ namespace Tecs {
                             auto &storage = this->instance.template Storage<AllComponentTypes>();
 
                             storage.readComponents.swap(storage.writeComponents);
-                            if constexpr (is_add_remove_allowed<LockType>()) {
-                                if (this->writeAccessedFlags[0]) {
-                                    storage.readValidEntities.swap(storage.writeValidEntities);
-                                }
-                            }
                             storage.CommitUnlock();
                         }
                     }(),
-- 
2.43.0


From 06b3664b07e9a1388665ae2208e333d01b552823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 07/12] fix: a failed allocation in
 StartTransaction<AddRemove>() leaked its locks

The event queues were allocated after all locks had been acquired, and an
exception there left the instance locked forever. Allocate them with the
instance instead.
---
 inc/Tecs.hh             | 6 +-----
 inc/Tecs_transaction.hh | 9 ---------
 2 files changed, 1 insertion(+), 14 deletions(-)

diff --git a/inc/Tecs.hh b/inc/Tecs.hh
index 1a027c7..3816716 100644
--- a/inc/Tecs.hh
+++ b/inc/Tecs.hh
@@ -122,11 +122,7 @@ namespace Tecs {
         template<typename Event>
         struct ObserverList {
             std::vector<std::shared_ptr<std::deque<Event>>> observers;
-            std::shared_ptr<std::deque<Event>> writeQueue;
-
-            void Init() {
-                if (!writeQueue) writeQueue = std::make_shared<std::deque<Event>>();
-            }
+            std::shared_ptr<std::deque<Event>> writeQueue = std::make_shared<std::deque<Event>>();
 
             void Commit() {
                 for (auto &observer : observers) {
diff --git a/inc/Tecs_transaction.hh b/inc/Tecs_transaction.hh
index 7690814..beaafa1 100644
--- a/inc/Tecs_transaction.hh
+++ b/inc/Tecs_transaction.hh
@@ -174,15 +174,6 @@ namespace Tecs {
                 }
             }
 
-            if (is_add_remove_allowed<LockType>()) {
-                // Init observer event queues
-                std::apply(
-                    [](auto &...args) {
-                        (args.Init(), ...);
-                    },
-                    this->instance.eventLists);
-            }
-
 #ifdef TECS_ENABLE_PERFORMANCE_TRACING
             TECS_EXTERNAL_TRACE_TRANSACTION_STARTED(FlatPermissions::Name());
 #endif
-- 
2.43.0


From b6fe8ab96a43e1b573f4bf71d01bdb8e13eca113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 08/12] fix: a failed allocation in NewEntity() left a
 half-created entity

The entity was marked as existing before it was added to the list of entities,
and the metadata grew before its index table.
---
 inc/Tecs_lock.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index d2d31f6..3604beb 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -151,8 +151,8 @@ namespace Tecs {
                 if (newSize > std::numeric_limits<TECS_ENTITY_INDEX_TYPE>::max()) {
                     throw std::runtime_error("New entity index overflows type: " + std::to_string(newSize));
                 }
-                instance.metadata.writeComponents.resize(newSize);
                 instance.metadata.validEntityIndexes.resize(newSize);
+                instance.metadata.writeComponents.resize(newSize);
 
                 // Add all but 1 of the new Entity ids to the free list.
                 for (size_t count = 1; count < TECS_ENTITY_ALLOCATION_BATCH_SIZE; count++) {
@@ -166,11 +166,12 @@ namespace Tecs {
                 instance.freeEntities.pop_front();
             }
 
-            instance.metadata.writeComponents[entity.index][0] = true;
-            instance.metadata.writeComponents[entity.index].generation = entity.generation;
+            // Adding to the list may fail, so the entity is only marked as existing afterwards
             auto &validEntities = instance.metadata.writeValidEntities;
-            instance.metadata.validEntityIndexes[entity.index] = validEntities.size();
             validEntities.emplace_back(entity);
+            instance.metadata.validEntityIndexes[entity.index] = validEntities.size() - 1;
+            instance.metadata.writeComponents[entity.index][0] = true;
+            instance.metadata.writeComponents[entity.index].generation = entity.generation;
 
             return entity;
         }
-- 
2.43.0


From e0e82a50769ba90485df2d96aec8e86733ebbf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 09/12] fix: a failure while adding a component left it
 half-added

The component was marked as present before its list entry and value existed, so
a failing allocation or component copy in Get()/Set() left a component that is
not listed, or has a value that was never set.
---
 inc/Tecs_entity.hh | 24 ++++++++++++++++--------
 inc/Tecs_lock.hh   | 14 +++++++++++---
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/inc/Tecs_entity.hh b/inc/Tecs_entity.hh
index b82efdf..91f94ca 100644
--- a/inc/Tecs_entity.hh
+++ b/inc/Tecs_entity.hh
@@ -150,10 +150,10 @@ namespace Tecs {
 
                     // Reset value before allowing reading.
                     storage.writeComponents[index] = {};
-                    metadata[1 + lock.instance.template GetComponentIndex<CompType>()] = true;
                     auto &validEntities = storage.writeValidEntities;
-                    storage.validEntityIndexes[index] = validEntities.size();
                     validEntities.emplace_back(*this);
+                    storage.validEntityIndexes[index] = validEntities.size() - 1;
+                    metadata[1 + lock.instance.template GetComponentIndex<CompType>()] = true;
                 }
 #ifndef TECS_UNCHECKED_MODE
             } else if (!lock.instance.template BitsetHas<CompType>(metadata)) {
@@ -222,10 +222,14 @@ namespace Tecs {
                 if (!lock.instance.template BitsetHas<T>(metadata)) {
                     lock.base->writeAccessedFlags[0] = true;
 
-                    metadata[1 + lock.instance.template GetComponentIndex<T>()] = true;
-                    auto &validEntities = lock.instance.template Storage<T>().writeValidEntities;
-                    lock.instance.template Storage<T>().validEntityIndexes[index] = validEntities.size();
+                    // Assigning the value may fail, so the component is only added afterwards
+                    auto &storage = lock.instance.template Storage<T>();
+                    storage.writeComponents[index] = value;
+                    auto &validEntities = storage.writeValidEntities;
                     validEntities.emplace_back(*this);
+                    storage.validEntityIndexes[index] = validEntities.size() - 1;
+                    metadata[1 + lock.instance.template GetComponentIndex<T>()] = true;
+                    return storage.writeComponents[index];
                 }
 #ifndef TECS_UNCHECKED_MODE
             } else if (!lock.instance.template BitsetHas<T>(metadata)) {
@@ -263,10 +267,14 @@ namespace Tecs {
                 if (!lock.instance.template BitsetHas<T>(metadata)) {
                     lock.base->writeAccessedFlags[0] = true;
 
-                    metadata[1 + lock.instance.template GetComponentIndex<T>()] = true;
-                    auto &validEntities = lock.instance.template Storage<T>().writeValidEntities;
-                    lock.instance.template Storage<T>().validEntityIndexes[index] = validEntities.size();
+                    // Assigning the value may fail, so the component is only added afterwards
+                    auto &storage = lock.instance.template Storage<T>();
+                    storage.writeComponents[index] = T(std::forward<Args>(args)...);
+                    auto &validEntities = storage.writeValidEntities;
                     validEntities.emplace_back(*this);
+                    storage.validEntityIndexes[index] = validEntities.size() - 1;
+                    metadata[1 + lock.instance.template GetComponentIndex<T>()] = true;
+                    return storage.writeComponents[index];
                 }
 #ifndef TECS_UNCHECKED_MODE
             } else if (!lock.instance.template BitsetHas<T>(metadata)) {
diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index 3604beb..a476489 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -217,10 +217,10 @@ namespace Tecs {
                 if (!instance.template BitsetHas<CompType>(metadata)) {
                     base->writeAccessedFlags[0] = true;
 
-                    metadata[1 + instance.template GetComponentIndex<CompType>()] = true;
                     storage.writeComponents.resize(1);
                     // Reset value before allowing reading.
                     storage.writeComponents[0] = {};
+                    metadata[1 + instance.template GetComponentIndex<CompType>()] = true;
                 }
 #ifndef TECS_UNCHECKED_MODE
             } else if (!instance.template BitsetHas<CompType>(metadata)) {
@@ -265,8 +265,12 @@ namespace Tecs {
                 if (!instance.template BitsetHas<T>(metadata)) {
                     base->writeAccessedFlags[0] = true;
 
+                    // Assigning the value may fail, so the component is only added afterwards
+                    auto &storage = instance.template Storage<T>();
+                    storage.writeComponents.resize(1);
+                    storage.writeComponents[0] = value;
                     metadata[1 + instance.template GetComponentIndex<T>()] = true;
-                    instance.template Storage<T>().writeComponents.resize(1);
+                    return storage.writeComponents[0];
                 }
 #ifndef TECS_UNCHECKED_MODE
             } else if (!instance.template BitsetHas<T>(metadata)) {
@@ -293,8 +297,12 @@ namespace Tecs {
                 if (!instance.template BitsetHas<T>(metadata)) {
                     base->writeAccessedFlags[0] = true;
 
+                    // Assigning the value may fail, so the component is only added afterwards
+                    auto &storage = instance.template Storage<T>();
+                    storage.writeComponents.resize(1);
+                    storage.writeComponents[0] = T(std::forward<Args>(args)...);
                     metadata[1 + instance.template GetComponentIndex<T>()] = true;
-                    instance.template Storage<T>().writeComponents.resize(1);
+                    return storage.writeComponents[0];
                 }
 #ifndef TECS_UNCHECKED_MODE
             } else if (!instance.template BitsetHas<T>(metadata)) {
-- 
2.43.0


From a4bedcefd884f3f831d421dbdba7b242bdd845f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 10/12] fix: a failure while removing a component left it
 half-removed

The component was marked as absent before its value was reset; a throwing
assignment left it in the list of entities with the component.
---
 inc/Tecs_lock.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index a476489..cc9de33 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -384,9 +384,10 @@ namespace Tecs {
                     base->writeAccessedFlags[0] = true;
                     base->template SetAccessFlag<T>(true);
 
-                    metadata[1 + instance.template GetComponentIndex<T>()] = false;
+                    // Resetting the value may fail, so the component is only removed afterwards
                     auto &compIndex = instance.template Storage<T>();
                     compIndex.writeComponents[index] = {};
+                    metadata[1 + instance.template GetComponentIndex<T>()] = false;
                     size_t validIndex = compIndex.validEntityIndexes[index];
                     compIndex.writeValidEntities[validIndex] = Entity();
                 }
@@ -402,8 +403,8 @@ namespace Tecs {
                 base->writeAccessedFlags[0] = true;
                 base->template SetAccessFlag<T>(true);
 
-                metadata[1 + instance.template GetComponentIndex<T>()] = false;
                 instance.template Storage<T>().writeComponents[0] = {};
+                metadata[1 + instance.template GetComponentIndex<T>()] = false;
             }
         }
 
-- 
2.43.0


From 765f612252ae127980fa510ec50160133b04a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 11/12] fix: allow DynamicLock::TryLock with 64 or more
 components before C++23

---
 inc/Tecs_lock.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index cc9de33..1b01221 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -478,8 +478,8 @@ namespace Tecs {
             if constexpr (Lock<ECS, StaticPermissions...>::template has_permissions<DynamicLockType>()) {
                 return DynamicLockType(this->instance, this->base, this->permissions);
             } else {
-                static constexpr auto requestedRead = generateReadBitset<DynamicLockType>();
-                static constexpr auto requestedWrite = generateWriteBitset<DynamicLockType>();
+                const auto requestedRead = generateReadBitset<DynamicLockType>();
+                const auto requestedWrite = generateWriteBitset<DynamicLockType>();
                 if ((requestedRead & readPermissions) == requestedRead &&
                     (requestedWrite & this->permissions) == requestedWrite) {
                     return DynamicLockType(this->instance, this->base, this->permissions);
-- 
2.43.0


From 9c39a976851b116ad26cca0b663f11ab54baa2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 12/12] fix: header-only mode did not compile since instance
 identities were added

---
 inc/Tecs.hh             | 4 ----
 inc/Tecs_transaction.hh | 2 ++
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/inc/Tecs.hh b/inc/Tecs.hh
index 3816716..140d83b 100644
--- a/inc/Tecs.hh
+++ b/inc/Tecs.hh
@@ -31,9 +31,7 @@ namespace Tecs {
     class ECS {
     public:
         ECS() {
-#ifndef TECS_HEADER_ONLY
             ecsId = ++nextEcsId;
-#endif
         }
 
         /**
@@ -178,9 +176,7 @@ namespace Tecs {
         TraceInfo transactionTrace;
 #endif
 
-#ifndef TECS_HEADER_ONLY
         size_t ecsId;
-#endif
 
         template<typename, typename...>
         friend class Lock;
diff --git a/inc/Tecs_transaction.hh b/inc/Tecs_transaction.hh
index beaafa1..e496437 100644
--- a/inc/Tecs_transaction.hh
+++ b/inc/Tecs_transaction.hh
@@ -29,6 +29,8 @@ namespace Tecs {
     extern thread_local size_t activeTransactionsCount;
     extern std::atomic_size_t nextEcsId;
     extern std::atomic_size_t nextTransactionId;
+#else
+    inline std::atomic_size_t nextEcsId(0);
 #endif
 
     /**
-- 
2.43.0

