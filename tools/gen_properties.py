#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mechanism],
                     observe_at=list(observe), hook_needed=hook)))
E,W,S,CO,R="src/entity.rs","src/world.rs","src/sparse_set.rs","src/component.rs","src/resource.rs"
Q,QW,QO="src/query/mod.rs","src/query/with.rs","src/query/without.rs"
G="src/group/mod.rs"
def GF(k): return ["src/group/%s/mod.rs"%k, "src/group/%s/query.rs"%k]
ALLG=[G]+GF("full_owning")+GF("partial_owning")+GF("non_owning")

prop("C01","Entity existence is exact",
 "At every point of every history of creations and removals, the world reports an id as existing (and hands out an entity handle for it) exactly when that id was returned by a creation and has not been removed since. Ids that were never handed out, however large, are simply reported as not existing. No creation ever returns an id that is currently alive.",
 ["histories","inputs"],"every history of create/create-many/remove/query-existence calls, and every id value asked about",
 "The tests run one creation/removal order, never ask about a removed or never-allocated id and never remove the id at the end of the free chain; existence must be right after every history.",
 [E,W],[("free-list of recycled ids threaded through the flag array",E),("World::exist / World::entity",W)],
 [("entity_flags","per id: alive (index) or recycled (next free id)",E),("entities","dense list of live ids",E)],
 ["World::exist","World::entity","World::create_entity","World::create_entities","World::remove_entity"])
prop("C02","Ids are recycled before new ones are used, bulk ids are consecutive",
 "Creating one entity returns an id freed by an earlier removal whenever at least one such id is free, and otherwise the next id of the sequence 1, 2, 3, ... that was never handed out. Creating n entities at once returns exactly n consecutive ids (none for n = 0), all of them not alive before the call and alive after it.",
 ["histories","inputs"],"every history of create, create-many (n >= 0) and remove calls",
 "The unit tests pop one fixed free list and allocate two fixed blocks; mixing bulk and single allocation with removals in every order is out of their reach.",
 [E,W],[("EntityManager::allocate / allocate_n / remove",E)],
 [("entity_flags[0]","head of the free list",E)],["World::create_entity","World::create_entities","Entities::into_ids"])
prop("C03","The world is an exact (entity, type) -> component map",
 "After any history of attaching, re-attaching, detaching and removing, every way of reading components (entity handle, world, storage views: lookup, membership, count, emptiness, data) reports for each live entity and registered type exactly the component attached last and not detached since, and nothing for any other pair. Re-attaching replaces the old component; detaching returns the component that was there, or nothing if there was none, for every entity of the world.",
 ["histories","inputs"],"every history of attach/detach/remove over any entities and types, in any order, and every (entity, type) pair read afterwards",
 "The tests use one insertion order and one removal; swap-removal, index growth and slot reuse depend on the whole history.",
 [S,CO,W,E],[("sparse set add/remove/get with swap-removal",S),("StorageRead/StorageWrite/ComponentRead/ComponentWrite",CO)],
 [("indices/entities/data","sparse index, dense owners and dense values of one component type",S)],
 ["World::components_read/write","World::entity_component_read/write","Entity::component_read/write","World::detach_component","Entity::detach"])
prop("C04","Removing an entity removes all and only its components",
 "Removing an entity makes its id non-existing and removes every component it had from every storage, query and group, whatever groups exist, while every other entity keeps exactly its components and its place in every query. An id that is handed out again starts with no component at all.",
 ["histories","configurations"],"every history ending in a removal, every set of groups, every set of component types held by the removed and the surviving entities",
 "The only removal tests remove one entity from a world without groups; removal walks groups and storages in an order that depends on configuration and hashing.",
 [W,E,S]+ALLG,[("World::remove_entity",W),("group removal before storage removal",G)],
 [],["World::remove_entity","Entity::manaully_drop","World::query","World::components_read"])
prop("C05","Bulk attach is equivalent to attaching one by one",
 "Attaching a list of components to a block of entities created together has the same effect on every observation as attaching the i-th component to the i-th entity individually: pairing by position, replacement of components already present, membership in groups that already exist. A list of the wrong length is rejected.",
 ["histories","configurations","inputs"],"every block size, every sequence of bulk and single attaches on it, every set of groups made before",
 "The one bulk test attaches each type once in a world without groups.",
 [E,S]+ALLG,[("Entities::attach",E),("SparseSet::add_batch",S)],[],["World::create_entities","Entities::attach"])
prop("C06","Single-component queries yield exactly the owners, once each",
 "At every reachable state, a query for shared or exclusive access to one component type yields every live entity owning that component exactly once, paired with its id and its own component, and nothing else; looking up an id through the query succeeds exactly for owners and gives that entity's component.",
 ["histories"],"every reachable world state (with or without groups) and both access modes",
 "Tests query after one fixed build-up; dense order after swaps and removals is history dependent.",
 [Q,S],[("IterRef / IterMut",Q)],[],["World::query","WithId::with_id","QueryIterator::from_id"])
prop("C07","Tuple queries yield exactly the intersection",
 "At every reachable state, a query over a tuple of two to five parts, nested in any way and with any mix of shared and exclusive access, yields exactly the entities matched by all of its parts, once each, every part of the item being that entity's own component. Looking up an id through the query succeeds exactly for the entities it yields.",
 ["histories","inputs"],"every reachable state, every membership pattern of up to five types, every arity/nesting/access mode",
 "The tests sample a pair and one nested pair on one world; arity 3 to 5 is not tested at all.",
 [QW,Q],[("WithIter..WithIter5",QW)],[],["World::query over tuples"])
prop("C08","Without yields exactly the complement",
 "At every reachable state, a query combined with a Without part (on either side, over single components, tuples, groups or nested) yields exactly the entities matched by the positive part and not matched by the excluded part, once each and with their own components. Looking up an id through the query succeeds exactly for the entities it yields.",
 ["histories","inputs"],"every reachable state and every combination of positive and excluded part",
 "Tests run three Without queries on one world, only by plain iteration, never by id.",
 [QO,Q],[("WithoutIterLeft / WithoutIterRight",QO)],[],["World::query with Without"])
prop("C09","Query iterators behave as one cursor",
 "On any query, plain stepping, stepping with ids and looking up ids may be interleaved freely: steps of both kinds advance one cursor so that together they yield each match exactly once, lookups neither disturb the cursor nor depend on it, and once exhausted the query stays exhausted. The reported remaining length always brackets what is really left and is exact for single-component and group queries.",
 ["histories","inputs"],"every interleaving of next / next_with_id / from_id / size_hint calls on every kind of query over every reachable small world",
 "Tests only drain iterators with one kind of step and never call size_hint or from_id.",
 [Q,QW,QO]+ALLG,[("Iterator / QueryIterator / ExactSizeIterator impls",Q)],[("index","cursor of each iterator",Q)],["QueryIterator","Iterator::size_hint"])
for cid,k,K in (("C10","full_owning","full-owning"),("C11","partial_owning","partial-owning"),("C12","non_owning","non-owning")):
    prop(cid,"A %s group always yields exactly the entities with both components"%K,
     "From the moment a %s group over two types is made, and after any later history of creating, attaching, re-attaching, detaching and removing, a query through that group, in all four access-mode combinations, yields exactly the live entities that have both components, once each, with their own two components and id. Lookup by id through the group agrees with it."%K,
     ["histories","configurations"],"every world state at which the group is made and every history of changes after it",
     "group_test prints after making groups and asserts nothing; group queries are never executed by any test.",
     [G,W,E]+GF(k),[("group add/remove/make",GF(k)[0]),("group iterators",GF(k)[1])],
     [("group length or member set","the entities currently in the group",GF(k)[0])],["World::make_group","World::query over %s"%k])
prop("C13","Groups sharing component types stay exact together",
 "When several groups exist at the same time and share component types in any admissible way, after any history every one of the groups still yields exactly the entities with both of its components, with their own components. This holds for every kind and order of creation of the groups.",
 ["histories","configurations"],"every admissible set of two or three groups over three types, every history of changes interleaved with making them",
 "No test queries any group, let alone several that share storages which each other rearranges.",
 [W,E]+ALLG,[("World::groups, World::remove_entity, Entity::attach/detach visiting all groups",W)],[],["World::make_group","World::query over groups"])
prop("C14","Groups never change what the rest of the API reports",
 "Making groups, at any time and in any admissible combination, changes no other observation: existence, component reads, storage views, plain, tuple and Without queries and results of attach, detach and remove are, up to iteration order, the same as in the same history without groups.",
 ["histories","configurations"],"every history with group creations inserted at any position, compared with the history without them",
 "Needs a comparison of pairs of histories; tests never compare a grouped with an ungrouped world.",
 [W,E,S]+ALLG,[("swap_by_index based rearrangement",S)],[],["all observers except group queries"])
prop("C15","Group admission is exact",
 "Making a group succeeds exactly when both component types are registered, no equal group (same kind, same ordered pair of types) exists and none of the storages it would own is already owned by another group or named twice by it; otherwise it is refused with a panic and never hangs. A query through a group is accepted exactly when that group was made.",
 ["configurations","histories"],"every sequence of make-group calls over all kinds and ordered type pairs",
 "group_test makes three compatible groups; no refusal is tested.",
 [W]+ALLG,[("World::make_group assertions",W),("owning/owned",G)],[("groups","groups made so far",W)],["World::make_group"])
prop("C16","Refused calls leave the world unchanged and usable",
 "A call that is refused (unregistered type, non-existing entity, wrong list length, duplicate registration, inadmissible group, query of an unregistered type or missing group) panics, leaves every observation of the world as it was, keeps no lock held, and all later calls behave as if it had not been made.",
 ["histories","inputs"],"every kind of refused call at every reachable small state, followed by every short continuation",
 "No test exercises any documented panic, let alone continues after it.",
 [W,E,Q]+ALLG,[("assertions before mutation",W),("guards released on unwinding",E)],[],["every public call after a caught panic"])
prop("C17","Every component and resource value is dropped exactly once, and on time",
 "A value given to the world is owned by exactly one place: it is returned by detach, or dropped at the moment it is replaced, its entity is removed, its resource is replaced, its call is refused or the world is dropped, and never twice, early or not at all.",
 ["histories"],"every history of attaches (single, bulk, replacing), detaches, removals, refusals and final drop",
 "Tests only store Copy values or strings and never count drops.",
 [S,W,E,R,CO],[("swap_remove / overwrite in the sparse set",S)],[],["Drop of component and resource values"])
prop("C18","A write through any path changes exactly that component everywhere",
 "Changing a component through any exclusive access (component guard, storage guard, exclusive query of any kind and position, group query, lookup by id) changes the component of exactly that entity and type, and every later read through any path sees the new value until the next write.",
 ["histories","inputs"],"every exclusive path, every reachable small state, every target entity",
 "Tests write through one component guard only.",
 [CO,Q,QW,QO]+ALLG,[("DerefMut / get_mut / data_mut / IterMut*",CO)],[],["all exclusive and all shared accessors"])
prop("C19","Resources are exact per-type singletons",
 "For each resource type, reading gives nothing until a value of exactly that type is registered, and then the last value registered or written, unaffected by values of other types (even of identical layout); registering again replaces the value. Formatting a guard shows the current value.",
 ["histories","inputs"],"every history of register / read / write over several resource types",
 "One test registers one resource once.",
 [R,W],[("TypeId-keyed map and downcasts",R)],[("resources","one boxed value per type",W)],["World::register_resource","World::resource_read","World::resource_write"])
prop("C20","No conflicting access while a guard, query or reference is in use",
 "Under every schedule, while some thread uses shared access to components of a type or to a resource (guard, query, or a reference obtained from one), no exclusive access or structural change to it can be obtained by anyone, and while exclusive access is in use no other access at all; accesses that do not conflict can be held at the same time.",
 ["schedules","histories"],"every pair of access kinds on two threads and every interleaving of their lock operations",
 "All tests are single threaded.",
 [CO,R,Q,W,QW,QO]+ALLG,[("RwLock per storage/resource/group kept inside guards and iterators",CO)],[],["every guard and iterator type"])
prop("C21","Concurrent operations are linearizable",
 "When several threads operate on one shared world, every execution's results and final state equal those of some one-at-a-time order of the operations that respects their real-time order: creations, attaches, bulk attaches, detaches, removals, existence checks, component reads and writes, plain, tuple and group queries. In particular no component survives on a removed entity and groups stay exact.",
 ["schedules"],"every interleaving, within a preemption bound, of two or three threads running one or two operations each on colliding entities and types, for several group configurations",
 "All tests are single threaded; the races need specific interleavings between lock acquisitions.",
 [W,E,Q]+ALLG,[("entity manager lock held by handles and removal",W),("group locks held across storage changes",E)],[],["all World and Entity methods taking &self"],"none in /repo: the lock crate is replaced by a controlled one when the checks build")
prop("C22","Concurrent operations always complete (no deadlock)",
 "Any set of threads that each run world operations one after another, holding no guard or iterator from an earlier call and no handle other than the one they are building on, always run to completion under every schedule: no call deadlocks with others or with itself, and no call leaves a lock held when it returns or panics.",
 ["schedules","configurations"],"every interleaving, within a preemption bound, of two or three threads over the operation menu, every group configuration in the menu and every hash order of the storages",
 "All tests are single threaded; lock-order inversions need two threads.",
 [W,E,Q]+ALLG,[("lock order: entities, groups, storages",W)],[],["completion of every call"],"none in /repo: the lock crate is replaced by a controlled one when the checks build")
prop("C23","An entity handle pins its entity",
 "While a handle to an entity or to a block of entities is alive, those entities stay alive and no component is taken from them by a removal: a removal by another thread takes effect only after the handle is released. A handle returned by a creation or lookup always denotes entities that are alive at that moment.",
 ["schedules"],"every interleaving of a thread holding a handle with threads removing, recycling and looking up the same entities",
 "All tests are single threaded.",
 [E,W],[("read lock of the entity manager inside Entity and Entities",E),("World::remove_entity waiting for it",W)],[],["World::create_entity","World::entity","World::create_entities","World::remove_entity"],"none in /repo: the lock crate is replaced by a controlled one when the checks build")
prop("C24","Owning groups keep their members packed at the front of the storages they own",
 "From the moment an owning group is made, and after any later history, with any other groups around, the components of its n members are exactly the first n entries of the data slice of every storage it owns (both for a full-owning group, the first for a partial-owning one); for a full-owning group the i-th of these entries of both storages belong to the same entity, so that both slices can be walked in parallel.",
 ["histories","configurations"],"every history of changes after (and before) an owning group is made, every admissible set of groups around it",
 "The documented rearrangement is only printed by group_test; no test compares the order of two storages.",
 [G,E,W,S]+GF("full_owning")+GF("partial_owning"),[("group add/remove/make swapping members to the front",G),("SparseSet::swap_by_index",S)],
 [("group length","how many entries at the front belong to the group",G)],["World::components_read","StorageRead::data"])
prop("C25","A panic in the user's own code leaves the world exact and usable",
 "When code of the user panics inside or during a call (one destructor of a component or resource that the world replaces or removes, a conversion into a list of components or into a group, or any code while guards, queries or handles are held), the panic reaches the caller, no lock stays held, and the call is either complete (destructors: everything else is removed, attached and grouped as if nothing had panicked, every other value dropped exactly once) or without effect (conversions); every later call behaves accordingly.",
 ["crash_points","histories"],"every destructor, conversion and held object as the point of the panic, in every reachable small state, followed by every short continuation",
 "No test panics anywhere in user code.",
 [W,E,S,R]+ALLG,[("removal from storages after the groups let go, continuing after a panic",W),("values replaced by a block attach are dropped last",E),("guards released on unwinding",E)],[],["every public call after a caught panic"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=True)+"\n")
print(len(P))
