PROPERTY = 'C20'
NEEDS = 'a query through a partial-owning group with exclusive access to the second component only, and a reader of that component in another thread'
BREAKS = 'the query keeps only shared access to the storage it hands out exclusive references to'
EDITS = [('src/group/partial_owning/query.rs', '''    #[allow(unused)]
    borrow_a: RwLockReadGuard<'a,Box<dyn ComponentStorage>>,
    #[allow(unused)]
    borrow_b: RwLockWriteGuard<'a,Box<dyn ComponentStorage>>,
''', '''    #[allow(unused)]
    borrow_a: RwLockReadGuard<'a,Box<dyn ComponentStorage>>,
    #[allow(unused)]
    borrow_b: RwLockReadGuard<'a,Box<dyn ComponentStorage>>,
'''), ('src/group/partial_owning/query.rs', '''        Box::new(IterRefMut {
            index: 0,
            length,
            sparse_set_a: ptr_a,
            sparse_set_b: ptr_b,
            borrow_a: storage_a,
            borrow_b: storage_b,
''', '''        Box::new(IterRefMut {
            index: 0,
            length,
            sparse_set_a: ptr_a,
            sparse_set_b: ptr_b,
            borrow_a: storage_a,
            // the group keeps its members in place
            borrow_b: RwLockWriteGuard::downgrade(storage_b),
''')]
DEMO = r'''
use std::time::{Duration, Instant};
use xecs::group::{partial_owning, PartialOwning};
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>().register::<u64>();
    world.create_entity().attach(1u32).attach(1u64);
    world.make_group(partial_owning::<u32, u64>());
    let world = &world;
    std::thread::scope(|s| {
        let mut query = world.query::<PartialOwning<&u32, &mut u64>>();
        let item = query.next().unwrap();
        let t = s.spawn(move || {
            let _guard = world.components_read::<u64>().unwrap();
            Instant::now()
        });
        std::thread::sleep(Duration::from_millis(300));
        *item.1 = 2;
        let end = Instant::now();
        drop(query);
        assert!(t.join().unwrap() >= end, "read while there is exclusive access");
    });
}
'''
