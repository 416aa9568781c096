From 8ee2087c7a4f41994d4213cff512f9ba829586fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 01/18] fix: removing an id just past the end of a sparse set
 is out of bounds

detach on an entity whose id equals the length of the index panicked instead of returning None
---
 src/sparse_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index 20eafc6..d3d789c 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -67,7 +67,7 @@ impl<E,T> SparseSet<E,T>
 
     pub fn remove(&mut self,entity : E) -> Option<T> {
         let entity : usize = entity.into();
-        if self.indices.len() < entity {
+        if self.indices.len() <= entity {
             return None;
         }
         if let Some(index) = self.indices[entity] {
-- 
2.43.0


From 9e42180e5367e88631db97b2acbce693a51984cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 02/18] fix: asking for an id that was never allocated panics

World::exist and World::entity indexed out of bounds
---
 src/entity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 9c5ff3f..5e8bfd1 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -279,7 +279,7 @@ impl EntityManager {
     }
 
     pub(in crate) fn has(&self,entity_id : EntityId) -> bool {
-        if let EntityFlag::Unavailable(_) = self.entity_flags[entity_id.get()] {
+        if let Some(EntityFlag::Unavailable(_)) = self.entity_flags.get(entity_id.get()) {
             true
         } else {
             false
-- 
2.43.0


From 5931b4838837e88a15176d0300eb36d642c13f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 03/18] fix: a removed entity still exists when it is the only
 free id

The end of the free chain was marked Unavailable, which is also the mark of a living entity
---
 src/entity.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 5e8bfd1..2b65c69 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -194,8 +194,8 @@ impl<'a> Entities<'a> {
 
 #[derive(Debug,Copy,Clone)]
 enum EntityFlag{
-    /// store the next available EntityID
-    Available(EntityId),
+    /// store the next available EntityID, None at the end of the chain
+    Available(Option<EntityId>),
     /// store the index of EntityID in entities array
     Unavailable(usize)
 }
@@ -204,8 +204,8 @@ enum EntityFlag{
 pub(in crate) struct EntityManager {
     // entity_flags[0] : Because the ID 0 is not a valid ID,
     //     so the first one can be used to store the last removed ID
-    //     Unavailable(_)      -> there is no entityID for reuse
-    //     Available(EntityID) -> the EntityID
+    //     Available(None)           -> there is no entityID for reuse
+    //     Available(Some(EntityID)) -> the EntityID
     entity_flags : Vec<EntityFlag>,
     entities : Vec<EntityId>,
 }
@@ -213,7 +213,7 @@ pub(in crate) struct EntityManager {
 impl EntityManager {
     pub(in crate) fn new() -> EntityManager {
         EntityManager {
-            entity_flags: vec![EntityFlag::Unavailable(0)],
+            entity_flags: vec![EntityFlag::Available(None)],
             entities: vec![]
         }
     }
@@ -221,7 +221,7 @@ impl EntityManager {
     pub(in crate) fn allocate(&mut self) -> EntityId {
         //safe here:
         // the entity_flags[0] cannot be removed
-        if let EntityFlag::Available(last_id) = self.entity_flags.first().unwrap() {
+        if let EntityFlag::Available(Some(last_id)) = self.entity_flags.first().unwrap() {
             let last_id = *last_id;
             //we got an id can be reused
             let new_id = self.entity_flags[last_id.get()];
@@ -274,7 +274,7 @@ impl EntityManager {
             self.entities.swap_remove(index);
             // keep these destroyed ids being a chain
             self.entity_flags[entity_id_] = self.entity_flags[0];
-            self.entity_flags[0] = EntityFlag::Available(entity_id);
+            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));
         }
     }
 
-- 
2.43.0


From b05e9dcdaba7e8b791d0148f835aaf9d88b37b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 04/18] fix: Entities::attach does not update groups

Entities equipped in bulk after make_group were missing from every group
---
 src/entity.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 2b65c69..be1e3af 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -166,12 +166,12 @@ impl<'a> Entities<'a> {
         let components : Vec<T> = components.into();
         assert_eq!(components.len(),count);
         let type_id = TypeId::of::<T>();
-        let mut sparse_set = self.world.raw_storage_write(type_id)
+        let mut storage = self.world.raw_storage_write(type_id)
             .expect("Entities:Cannot attach component because components has not been registered.");
         // Safety:
         // sparse_set is SparseSet<EntityId,T>
         let sparse_set = unsafe {
-            sparse_set.downcast_mut::<SparseSet<EntityId,T>>()
+            storage.downcast_mut::<SparseSet<EntityId,T>>()
         };
         // create Id slice
         let ids = (self.ids.start.get()..self.ids.end.get())
@@ -180,6 +180,31 @@ impl<'a> Entities<'a> {
             .map(|id|unsafe{EntityId::new_unchecked(id)})
             .collect::<Vec<_>>();
         sparse_set.add_batch(&ids,components);
+        drop(storage);
+        for mut group in self.world.groups(type_id) {
+            for id in &ids {
+                match &mut *group {
+                    Group::FullOwning(data) => {
+                        let (type_a,type_b) = data.types();
+                        let mut comp_a = self.world.raw_storage_write(type_a).unwrap();
+                        let mut comp_b = self.world.raw_storage_write(type_b).unwrap();
+                        data.add(*id,&mut comp_a,&mut comp_b);
+                    },
+                    Group::PartialOwning(data) => {
+                        let (type_a,type_b) = data.types();
+                        let mut comp_a = self.world.raw_storage_write(type_a).unwrap();
+                        let comp_b = self.world.raw_storage_read(type_b).unwrap();
+                        data.add(*id,&mut comp_a,&comp_b);
+                    },
+                    Group::NonOwning(data) => {
+                        let (type_a,type_b) = data.types();
+                        let comp_a = self.world.raw_storage_read(type_a).unwrap();
+                        let comp_b = self.world.raw_storage_read(type_b).unwrap();
+                        data.add(*id,&comp_a,&comp_b);
+                    }
+                }
+            }
+        }
         self
     }
 
-- 
2.43.0


From 4f837439e3c1fde1f67dd4d26b35ccdb8edf6853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 05/18] fix: bulk attach duplicates components that are already
 there

Entities::attach of the same type twice kept the old values in the storage
---
 src/sparse_set.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index d3d789c..5dcea06 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -45,23 +45,11 @@ impl<E,T> SparseSet<E,T>
         }
     }
 
-    pub fn add_batch(&mut self,entities : &[E],mut data : Vec<T>) {
+    pub fn add_batch(&mut self,entities : &[E],data : Vec<T>) {
         assert_eq!(entities.len(),data.len());
-        let start_index = self.entities.len();
-        // copy data to dense
-        self.entities.extend_from_slice(entities);
-        self.data.append(&mut data);
-        // store data in sparse
-        for (index,entity) in entities.iter().enumerate() {
-            let entity_ : usize = (*entity).into();
-            // enlarge sparse
-            while self.indices.len() <= entity_ {
-                self.indices.push(None);
-            }
-            // store index to sparse
-            self.indices[entity_] = Some(unsafe {
-                NonZeroUsize::new_unchecked(start_index + index + 1)
-            });
+        for (entity,data) in entities.iter().zip(data) {
+            // overwrite if it already exists
+            self.add(*entity,data);
         }
     }
 
-- 
2.43.0


From 91358ccb0fca63f2118fae0c44e59dd93d38b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 06/18] fix: remove_entity corrupts the other groups of the
 same components

A group took the components out of their storages while later groups still counted on them
---
 src/world.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index ad3bcc7..49b8309 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -111,7 +111,8 @@ impl World {
                 groups.push(group.write());
             };
         }
-        // remove entity in group and its storages
+        // remove entity in groups
+        // Every group has to see the components in place, so the storages are not touched yet
         for mut group in groups {
             match &mut *group{
                 Group::FullOwning(data) => {
@@ -119,15 +120,12 @@ impl World {
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
                     let mut comp_b = self.raw_storage_write(type_b).unwrap();
                     data.remove(entity_id,&mut comp_a,&mut comp_b);
-                    comp_a.remove(entity_id);
-                    comp_b.remove(entity_id);
                 },
                 Group::PartialOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
                     let comp_b = self.raw_storage_read(type_b).unwrap();
                     data.remove(entity_id,&mut comp_a,&comp_b);
-                    comp_a.remove(entity_id);
                 }
                 Group::NonOwning(data) => {
                     let (type_a,type_b) = data.types();
@@ -137,7 +135,7 @@ impl World {
                 },
             }
         }
-        // remove entity in other storages
+        // remove entity in storages
         let mut storages = vec![];
         for storage in self.components.values() {
             let need_remove = {
-- 
2.43.0


From 9a673ffd7b27ab20a3722e6b90ca4a5136fbd8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 07/18] fix: make_group with an unregistered component leaves a
 broken group behind

The group was stored before the panic, which made later operations panic, too
---
 src/world.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/world.rs b/src/world.rs
index 49b8309..e7501e1 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -255,6 +255,7 @@ impl World {
     /// ## Panics
     /// * Panic if ```group``` is the same as another group in [World](crate::world::World).
     /// * Panic if component is owned by another group.
+    /// * Panic if component is not registered.
     pub fn make_group<G : Into<Group> + 'static + Copy>(&mut self, group: G) {
         assert!(!self.has_group(group),
                 "World: Cannot make group because world has a same group");
@@ -276,6 +277,9 @@ impl World {
             "World: Cannot make group because component was owned by another group"
         );
 
+        let (type_a,type_b) = group.types();
+        assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
+                "World: Cannot make group because components have not been registered");
         self.groups.push(RwLock::new(group));
         let group = self.groups.last().unwrap();
         let mut group = group.write();
-- 
2.43.0


From 7b57b02f6db70a2207d2bb2f07dcb48c89355d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 08/18] fix: make_group never returns when an owning group has
 one component twice

It waited for the storage lock it was holding
---
 src/world.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/world.rs b/src/world.rs
index e7501e1..7df8ae1 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -256,6 +256,7 @@ impl World {
     /// * Panic if ```group``` is the same as another group in [World](crate::world::World).
     /// * Panic if component is owned by another group.
     /// * Panic if component is not registered.
+    /// * Panic if an owning ```group``` has the same component twice.
     pub fn make_group<G : Into<Group> + 'static + Copy>(&mut self, group: G) {
         assert!(!self.has_group(group),
                 "World: Cannot make group because world has a same group");
@@ -280,6 +281,8 @@ impl World {
         let (type_a,type_b) = group.types();
         assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
                 "World: Cannot make group because components have not been registered");
+        assert!(type_a != type_b || group.owning().is_empty(),
+                "World: Cannot make group because it owns the same component twice");
         self.groups.push(RwLock::new(group));
         let group = self.groups.last().unwrap();
         let mut group = group.write();
-- 
2.43.0


From af26817070257864e79c986e721305b706f30dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 09/18] fix: non-owning groups read components at stale indices

The group remembered indices into the storages, which change whenever another group or a
removal rearranges them; queries returned the wrong components or read out of bounds
---
 src/group/non_owning/mod.rs   |  19 +++---
 src/group/non_owning/query.rs | 116 +++++++++++++++-------------------
 2 files changed, 60 insertions(+), 75 deletions(-)

diff --git a/src/group/non_owning/mod.rs b/src/group/non_owning/mod.rs
index b4db15f..4e8838c 100644
--- a/src/group/non_owning/mod.rs
+++ b/src/group/non_owning/mod.rs
@@ -13,7 +13,9 @@ pub use query::{
 
 
 pub struct NonOwningData {
-    sparse_set : SparseSet<EntityId,(usize,usize)>,
+    // Only the entities are stored here,
+    // their indices in storages can be changed by other groups and removals
+    sparse_set : SparseSet<EntityId,()>,
     type_a : TypeId,
     type_b : TypeId
 }
@@ -67,12 +69,7 @@ impl NonOwningData {
             return;
         }
 
-        // get index in component storage
-        // This unwrap never fails because the in_components() ensures that it's already in components.
-        let index_a = comp_a.index(id).unwrap();
-        let index_b = comp_b.index(id).unwrap();
-
-        self.sparse_set.add(id,(index_a,index_b));
+        self.sparse_set.add(id,());
     }
 
     pub(in crate) fn remove(&mut self,
@@ -101,8 +98,8 @@ impl NonOwningData {
                 // Unwrap here never fails
                 // the for loop ensures this
                 let entity_id = comp_a.id(index_a).unwrap();
-                if let Some(index_b) = comp_b.index(entity_id) {
-                    self.sparse_set.add(entity_id,(index_a,index_b));
+                if comp_b.has(entity_id) {
+                    self.sparse_set.add(entity_id,());
                 }
             }
         } else {
@@ -110,8 +107,8 @@ impl NonOwningData {
                 // Unwrap here never fails
                 // the for loop ensures this
                 let entity_id = comp_b.id(index_b).unwrap();
-                if let Some(index_a) = comp_a.index(entity_id) {
-                    self.sparse_set.add(entity_id,(index_a,index_b));
+                if comp_a.has(entity_id) {
+                    self.sparse_set.add(entity_id,());
                 }
             }
         }
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 9203f23..5ae1ef0 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -5,7 +5,7 @@ use super::NonOwning;
 
 pub struct IterRefRef<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *const SparseSet<EntityId,A>,
     sparse_set_b: *const SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -70,8 +70,8 @@ impl<'a,A: Component,B : Component> Iterator for IterRefRef<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -80,12 +80,12 @@ impl<'a,A: Component,B : Component> Iterator for IterRefRef<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because every entity in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -111,14 +111,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &*self.sparse_set_a };
         let sparse_set_b = unsafe { &*self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because every entity in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             Some((data_a,data_b))
         } else {
@@ -138,9 +138,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -148,12 +145,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because every entity in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
@@ -170,7 +167,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
 
 pub struct IterRefMut<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *const SparseSet<EntityId,A>,
     sparse_set_b: *mut SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -235,8 +232,8 @@ impl<'a,A: Component,B : Component> Iterator for IterRefMut<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -245,12 +242,12 @@ impl<'a,A: Component,B : Component> Iterator for IterRefMut<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because every entity in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -276,14 +273,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &*self.sparse_set_a };
         let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because index stored in group is valid.
+            // Safe here, because every entity in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             Some((data_a,data_b))
         } else {
@@ -303,9 +300,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -313,12 +307,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because every entity in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
@@ -335,7 +329,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
 
 pub struct IterMutRef<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *mut SparseSet<EntityId,A>,
     sparse_set_b: *const SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -400,8 +394,8 @@ impl<'a,A: Component,B : Component> Iterator for IterMutRef<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -410,12 +404,12 @@ impl<'a,A: Component,B : Component> Iterator for IterMutRef<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because every entity in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -441,14 +435,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &mut *self.sparse_set_a };
         let sparse_set_b = unsafe { &*self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because every entity in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             Some((data_a,data_b))
         } else {
@@ -468,9 +462,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -478,12 +469,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because every entity in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
@@ -501,7 +492,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
 
 pub struct IterMutMut<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *mut SparseSet<EntityId,A>,
     sparse_set_b: *mut SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -566,8 +557,8 @@ impl<'a,A: Component,B : Component> Iterator for IterMutMut<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -576,12 +567,12 @@ impl<'a,A: Component,B : Component> Iterator for IterMutMut<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because every entity in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -607,14 +598,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &mut *self.sparse_set_a };
         let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because every entity in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             Some((data_a,data_b))
         } else {
@@ -634,9 +625,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -644,12 +632,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because every entity in group is in both storages.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
-- 
2.43.0


From c5fe5fef40955706927ba7b696b2e4e4ea959cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:39 +0000
Subject: [PATCH 10/18] fix: an entity can be used or removed by others while
 it is being removed

---
 src/world.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index 7df8ae1..fcb09ea 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -95,7 +95,10 @@ impl World {
 
     /// Remove entity and its components.
     pub fn remove_entity(&self, entity_id: EntityId) {
-        assert!(self.exist(entity_id),
+        // Held until the entity is gone, so that nobody can attach to it, detach from it,
+        // remove it or hold an Entity of it meanwhile
+        let mut entity_manager = self.entity_manager.write();
+        assert!(entity_manager.has(entity_id),
                 "World:Cannot remove a non-exists entity");
         // find all groups need remove 
         let mut groups = vec![];
@@ -150,10 +153,7 @@ impl World {
             storage.remove(entity_id);
         }
         // remove entity from manager
-        {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.remove(entity_id);
-        }
+        entity_manager.remove(entity_id);
     }
 
     /// Get lock guard of raw component storage,
-- 
2.43.0


From a323773bb03945f4aec513b44e42bc673c39b788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 11/18] fix: groups get out of date when components are
 attached and detached at once

---
 src/entity.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index be1e3af..2a4018a 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -40,6 +40,9 @@ impl<'a> Entity<'a>{
         assert!(world.has_registered::<T>(),
                 "Entity:Cannot attach component because components has not been registered.");
         let type_id = TypeId::of::<T>();
+        // The groups are locked before the storage changes,
+        // so that nobody sees or changes them before they are up to date
+        let groups = world.groups(type_id);
         {
             // Unwrap never fails because assert ensures this
             let mut storage = world.raw_storage_write(type_id).unwrap();
@@ -50,7 +53,7 @@ impl<'a> Entity<'a>{
             };
             sparse_set.add(self.id,component);
         }
-        for mut group in world.groups(type_id) {
+        for mut group in groups {
             match &mut *group {
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
@@ -83,8 +86,10 @@ impl<'a> Entity<'a>{
         assert!(world.has_registered::<T>(),
                 "World:Cannot detach component because components has not been registered.");
         let type_id = TypeId::of::<T>();
-        for mut group in world.groups(type_id) {
-            match &mut *group{
+        // The groups stay locked until the component is gone
+        let mut groups = world.groups(type_id);
+        for group in &mut groups {
+            match &mut **group{
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = world.raw_storage_write(type_a).unwrap();
@@ -166,6 +171,9 @@ impl<'a> Entities<'a> {
         let components : Vec<T> = components.into();
         assert_eq!(components.len(),count);
         let type_id = TypeId::of::<T>();
+        // The groups are locked before the storage changes,
+        // so that nobody sees or changes them before they are up to date
+        let groups = self.world.groups(type_id);
         let mut storage = self.world.raw_storage_write(type_id)
             .expect("Entities:Cannot attach component because components has not been registered.");
         // Safety:
@@ -181,7 +189,7 @@ impl<'a> Entities<'a> {
             .collect::<Vec<_>>();
         sparse_set.add_batch(&ids,components);
         drop(storage);
-        for mut group in self.world.groups(type_id) {
+        for mut group in groups {
             for id in &ids {
                 match &mut *group {
                     Group::FullOwning(data) => {
-- 
2.43.0


From d571120b652d421ba4eec08fd285c39bca3664af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 12/18] fix: a new entity can be removed by others before its
 creation returns

---
 src/world.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index fcb09ea..9688b58 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -74,22 +74,21 @@ impl World {
     /// Create an entity without any component in World,
     ///  return an [Entity](crate::entity::Entity).
     pub fn create_entity(&self) -> Entity<'_> {
-        let id = {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.allocate()
-        };
-        self.entity(id).unwrap()
+        let mut entity_manager = self.entity_manager.write();
+        let id = entity_manager.allocate();
+        // Nobody else gets the chance to remove this new entity
+        let entity_manager = RwLockWriteGuard::downgrade(entity_manager);
+        Entity::new(self,entity_manager,id)
     }
 
     /// Create count of entities
     /// # Details
     /// This funtionn ensures tbe entity id is continuous.
     pub fn create_entities(&self,count: usize) -> Entities<'_> {
-        let ids = {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.allocate_n(count)
-        };
-        let entity_manager = self.entity_manager.read();
+        let mut entity_manager = self.entity_manager.write();
+        let ids = entity_manager.allocate_n(count);
+        // Nobody else gets the chance to remove these new entities
+        let entity_manager = RwLockWriteGuard::downgrade(entity_manager);
         Entities::new(self,ids,entity_manager)
     }
 
-- 
2.43.0


From ecec7c9192dbcd5f2d2864a2ea1a90464b752000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 13/18] fix: group queries deadlock with attaching, detaching
 and removing

---
 src/group/full_owning/query.rs    | 20 ++++++++++++--------
 src/group/non_owning/query.rs     | 20 ++++++++++++--------
 src/group/partial_owning/query.rs | 20 ++++++++++++--------
 3 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/group/full_owning/query.rs b/src/group/full_owning/query.rs
index 21d03e6..dbc51f9 100644
--- a/src/group/full_owning/query.rs
+++ b/src/group/full_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        // The group is locked before its storages, as everywhere else
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefRef{
             index: 0,
@@ -157,6 +158,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        // The group is locked before its storages, as everywhere else
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -171,8 +175,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefMut{
             index: 0,
@@ -291,6 +293,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        // The group is locked before its storages, as everywhere else
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -305,8 +310,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutRef{
             index: 0,
@@ -424,6 +427,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        // The group is locked before its storages, as everywhere else
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -438,8 +444,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutMut{
             index: 0,
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 5ae1ef0..874c229 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        // The group is locked before its storages, as everywhere else
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -186,6 +187,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        // The group is locked before its storages, as everywhere else
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -200,8 +204,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -348,6 +350,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        // The group is locked before its storages, as everywhere else
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -362,8 +367,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -511,6 +514,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        // The group is locked before its storages, as everywhere else
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -525,8 +531,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
diff --git a/src/group/partial_owning/query.rs b/src/group/partial_owning/query.rs
index d0dfbd6..8a765e3 100644
--- a/src/group/partial_owning/query.rs
+++ b/src/group/partial_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        // The group is locked before its storages, as everywhere else
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefRef {
             index: 0,
@@ -165,6 +166,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        // The group is locked before its storages, as everywhere else
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -179,8 +183,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefMut {
             index: 0,
@@ -308,6 +310,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        // The group is locked before its storages, as everywhere else
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -322,8 +327,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutRef {
             index: 0,
@@ -449,6 +452,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        // The group is locked before its storages, as everywhere else
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -463,8 +469,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutMut {
             index: 0,
-- 
2.43.0


From 86dd82ce16f027e32da83daddd96f0b42657551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 14/18] fix: removing an entity deadlocks with group queries

---
 src/world.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index 9688b58..9dd8d69 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -99,24 +99,21 @@ impl World {
         let mut entity_manager = self.entity_manager.write();
         assert!(entity_manager.has(entity_id),
                 "World:Cannot remove a non-exists entity");
-        // find all groups need remove 
+        // lock all groups of the components of the entity,
+        // their storages must not be used through them until the entity is gone
         let mut groups = vec![];
         for group in &self.groups {
-            let need_remove = {
-                let group = group.read();
-                let (type_a,type_b) = group.types();
-                let comp_a = self.raw_storage_read(type_a).unwrap();
-                let comp_b = self.raw_storage_read(type_b).unwrap();
-                group.in_group(entity_id, &comp_a, &comp_b)
-            };
-            if need_remove {
+            let (type_a,type_b) = group.read().types();
+            let has_a = self.raw_storage_read(type_a).unwrap().has(entity_id);
+            let has_b = self.raw_storage_read(type_b).unwrap().has(entity_id);
+            if has_a || has_b {
                 groups.push(group.write());
             };
         }
         // remove entity in groups
         // Every group has to see the components in place, so the storages are not touched yet
-        for mut group in groups {
-            match &mut *group{
+        for group in &mut groups {
+            match &mut **group{
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
-- 
2.43.0


From 0314c1d56b9086b302ee28bef62d2c73d871b390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 15/18] fix: attaching deadlocks with group queries when
 several groups share the type

---
 src/entity.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 2a4018a..66ebe97 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -42,7 +42,7 @@ impl<'a> Entity<'a>{
         let type_id = TypeId::of::<T>();
         // The groups are locked before the storage changes,
         // so that nobody sees or changes them before they are up to date
-        let groups = world.groups(type_id);
+        let mut groups = world.groups(type_id);
         {
             // Unwrap never fails because assert ensures this
             let mut storage = world.raw_storage_write(type_id).unwrap();
@@ -53,8 +53,8 @@ impl<'a> Entity<'a>{
             };
             sparse_set.add(self.id,component);
         }
-        for mut group in groups {
-            match &mut *group {
+        for group in &mut groups {
+            match &mut **group {
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = world.raw_storage_write(type_a).unwrap();
@@ -173,7 +173,7 @@ impl<'a> Entities<'a> {
         let type_id = TypeId::of::<T>();
         // The groups are locked before the storage changes,
         // so that nobody sees or changes them before they are up to date
-        let groups = self.world.groups(type_id);
+        let mut groups = self.world.groups(type_id);
         let mut storage = self.world.raw_storage_write(type_id)
             .expect("Entities:Cannot attach component because components has not been registered.");
         // Safety:
@@ -189,9 +189,9 @@ impl<'a> Entities<'a> {
             .collect::<Vec<_>>();
         sparse_set.add_batch(&ids,components);
         drop(storage);
-        for mut group in groups {
+        for group in &mut groups {
             for id in &ids {
-                match &mut *group {
+                match &mut **group {
                     Group::FullOwning(data) => {
                         let (type_a,type_b) = data.types();
                         let mut comp_a = self.world.raw_storage_write(type_a).unwrap();
-- 
2.43.0


From 4ba2e49668ba1eb54e8348099e4b71f7c50ec0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 16/18] fix: queries through groups of the same components in
 another order deadlock

---
 src/group/full_owning/query.rs    | 24 ++++++++++++++++--------
 src/group/non_owning/query.rs     | 24 ++++++++++++++++--------
 src/group/partial_owning/query.rs | 24 ++++++++++++++++--------
 src/world.rs                      | 13 +++++++++++++
 4 files changed, 61 insertions(+), 24 deletions(-)

diff --git a/src/group/full_owning/query.rs b/src/group/full_owning/query.rs
index dbc51f9..be6da05 100644
--- a/src/group/full_owning/query.rs
+++ b/src/group/full_owning/query.rs
@@ -29,8 +29,10 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
         let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (storage_a,storage_b) = World::in_order(
+            type_id_a,|| world.raw_storage_read(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_read(type_id_b).unwrap()
+        );
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -163,8 +165,10 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
         let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (storage_a,mut storage_b) = World::in_order(
+            type_id_a,|| world.raw_storage_read(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_write(type_id_b).unwrap()
+        );
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -298,8 +302,10 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (mut storage_a,storage_b) = World::in_order(
+            type_id_a,|| world.raw_storage_write(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_read(type_id_b).unwrap()
+        );
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -432,8 +438,10 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (mut storage_a,mut storage_b) = World::in_order(
+            type_id_a,|| world.raw_storage_write(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_write(type_id_b).unwrap()
+        );
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 874c229..766778b 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -29,8 +29,10 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
         let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (storage_a,storage_b) = World::in_order(
+            type_id_a,|| world.raw_storage_read(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_read(type_id_b).unwrap()
+        );
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -192,8 +194,10 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
         let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (storage_a,mut storage_b) = World::in_order(
+            type_id_a,|| world.raw_storage_read(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_write(type_id_b).unwrap()
+        );
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -355,8 +359,10 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
         let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (mut storage_a,storage_b) = World::in_order(
+            type_id_a,|| world.raw_storage_write(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_read(type_id_b).unwrap()
+        );
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -519,8 +525,10 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
         let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (mut storage_a,mut storage_b) = World::in_order(
+            type_id_a,|| world.raw_storage_write(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_write(type_id_b).unwrap()
+        );
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
diff --git a/src/group/partial_owning/query.rs b/src/group/partial_owning/query.rs
index 8a765e3..61e9bd0 100644
--- a/src/group/partial_owning/query.rs
+++ b/src/group/partial_owning/query.rs
@@ -29,8 +29,10 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
         let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (storage_a,storage_b) = World::in_order(
+            type_id_a,|| world.raw_storage_read(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_read(type_id_b).unwrap()
+        );
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -171,8 +173,10 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
         let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (storage_a,mut storage_b) = World::in_order(
+            type_id_a,|| world.raw_storage_read(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_write(type_id_b).unwrap()
+        );
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -315,8 +319,10 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (mut storage_a,storage_b) = World::in_order(
+            type_id_a,|| world.raw_storage_write(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_read(type_id_b).unwrap()
+        );
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -457,8 +463,10 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (mut storage_a,mut storage_b) = World::in_order(
+            type_id_a,|| world.raw_storage_write(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_write(type_id_b).unwrap()
+        );
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
diff --git a/src/world.rs b/src/world.rs
index 9dd8d69..5f56d06 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -170,6 +170,19 @@ impl World {
             .map(|rwlock|rwlock.write())
     }
 
+    /// Lock the storages of two components in an order that depends on nothing but the components,
+    /// so that groups of the same components in another order cannot wait for each other
+    pub(in crate) fn in_order<X,Y>(type_a : TypeId,lock_a : impl FnOnce() -> X,
+                                   type_b : TypeId,lock_b : impl FnOnce() -> Y) -> (X,Y) {
+        if type_a <= type_b {
+            let storage_a = lock_a();
+            (storage_a,lock_b())
+        } else {
+            let storage_b = lock_b();
+            (lock_a(),storage_b)
+        }
+    }
+
     /// Attach a component to an entity.  
     /// # Panics
     /// * Panic if ```T``` is not registered.
-- 
2.43.0


From 9be15f4eeb9a97cc937b9fd0a7c48269c92035e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:50 +0000
Subject: [PATCH 17/18] fix: a component that panics when it is replaced leaves
 a bulk attach half done

---
 src/entity.rs     |  5 ++++-
 src/sparse_set.rs | 13 +++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 66ebe97..cb569ab 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -187,7 +187,8 @@ impl<'a> Entities<'a> {
             // Safe here id cannot be zero 
             .map(|id|unsafe{EntityId::new_unchecked(id)})
             .collect::<Vec<_>>();
-        sparse_set.add_batch(&ids,components);
+        // Kept until all is done, a component may panic when it is dropped
+        let replaced = sparse_set.add_batch(&ids,components);
         drop(storage);
         for group in &mut groups {
             for id in &ids {
@@ -213,6 +214,8 @@ impl<'a> Entities<'a> {
                 }
             }
         }
+        drop(groups);
+        drop(replaced);
         self
     }
 
diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index 5dcea06..0e0c9d7 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -27,7 +27,8 @@ impl<E,T> SparseSet<E,T>
         self.data.clear();
     }
 
-    pub fn add(&mut self,entity : E,data : T) {
+    /// Add data, the data it replaces is returned
+    pub fn add(&mut self,entity : E,data : T) -> Option<T> {
         let entity_ : usize = entity.into();
         //enlarge sparse
         while self.indices.len() <= entity_ {
@@ -36,21 +37,25 @@ impl<E,T> SparseSet<E,T>
         if let Some(index) = self.indices[entity_] {
             //already exists
             //overwrite
-            self.data[index.get() - 1] = data;
+            Some(std::mem::replace(&mut self.data[index.get() - 1],data))
         }else{
             //not yet exist
             self.indices[entity_] = NonZeroUsize::new(self.entities.len() + 1);
             self.entities.push(entity);
             self.data.push(data);
+            None
         }
     }
 
-    pub fn add_batch(&mut self,entities : &[E],data : Vec<T>) {
+    /// Add data of many entities, all the data they replace is returned
+    pub fn add_batch(&mut self,entities : &[E],data : Vec<T>) -> Vec<T> {
         assert_eq!(entities.len(),data.len());
+        let mut replaced = vec![];
         for (entity,data) in entities.iter().zip(data) {
             // overwrite if it already exists
-            self.add(*entity,data);
+            replaced.extend(self.add(*entity,data));
         }
+        replaced
     }
 
     pub fn remove(&mut self,entity : E) -> Option<T> {
-- 
2.43.0


From bc04b041a4148f1e0e7fffe1265776d5d1544753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:51 +0000
Subject: [PATCH 18/18] fix: a component that panics when it is dropped leaves
 its entity half removed

---
 src/world.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/world.rs b/src/world.rs
index 5f56d06..8d9b608 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -7,6 +7,7 @@ use crate::sparse_set::SparseSet;
 use std::any::TypeId;
 use std::collections::HashMap;
 use std::fmt::{Debug, Formatter};
+use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
 use parking_lot::{RwLock, RwLockReadGuard, RwLockWriteGuard};
 
 /// World is the core of XECS.It manages all components and entities
@@ -145,11 +146,18 @@ impl World {
                 storages.push(storage.write());
             }
         }
+        // A component may panic when it is dropped, the others have to be removed all the same
+        let mut panic = None;
         for mut storage in storages {
-            storage.remove(entity_id);
+            if let Err(payload) = catch_unwind(AssertUnwindSafe(||storage.remove(entity_id))) {
+                panic = Some(payload);
+            }
         }
         // remove entity from manager
         entity_manager.remove(entity_id);
+        if let Some(payload) = panic {
+            resume_unwind(payload);
+        }
     }
 
     /// Get lock guard of raw component storage,
-- 
2.43.0

