PROPERTY = "C21"
NEEDS = "a non-owning group query being stepped through while another thread removes a member of the group"
BREAKS = "the shared query of a non-owning group keeps a pointer to the members but not the lock of the group, and removal takes members out before it waits for the storages"
EDITS = [("src/group/non_owning/query.rs", """    sparse_set_b: *const SparseSet<EntityId,B>,
    #[allow(unused)]
    borrow_group: RwLockReadGuard<'a,Group>,
""", """    sparse_set_b: *const SparseSet<EntityId,B>,
""", 'first'), ("src/group/non_owning/query.rs", """            sparse_set_b: ptr_b,
            borrow_group: group,
""", """            sparse_set_b: ptr_b,
""", 'first'), ("src/group/non_owning/query.rs", """        let rem = self.borrow_group.len() - self.index;
""", """        let rem = unsafe { &*self.sparse_set_group }.len() - self.index;
""", 'first')]
DEMO = r'''
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::Duration;
use xecs::group::{non_owning, NonOwning};
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>();
    world.register::<u64>();
    world.make_group(non_owning::<u32, u64>());
    let ids: Vec<_> = (0..4u32).map(|n| world.create_entity().attach(n).attach(n as u64).into_id()).collect();
    let world = &world;
    let going = AtomicBool::new(false);
    let mut seen = vec![];
    std::thread::scope(|s| {
        let mut query = world.query::<NonOwning<&u32, &u64>>();
        seen.push(*query.next().unwrap().0);
        s.spawn(|| {
            going.store(true, SeqCst);
            world.remove_entity(ids[0]);
        });
        while !going.load(SeqCst) {
            std::thread::yield_now();
        }
        std::thread::sleep(Duration::from_millis(300));
        while let Some((n, _)) = query.next() {
            seen.push(*n);
        }
        drop(query);
    });
    seen.sort();
    // all four were there when the query was made, and nothing can be taken while it is in use
    assert_eq!(seen, [0, 1, 2, 3]);
}
'''
