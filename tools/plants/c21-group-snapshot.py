PROPERTY = 'C21'
NEEDS = 'a removal or detach in another thread while a query of a non-owning group is half way through'
BREAKS = 'the query of a non-owning group does not keep the group locked, so that the list it walks is rearranged under it'
EDITS = [('src/group/non_owning/query.rs', '''    sparse_set_b: *const SparseSet<EntityId,B>,
    #[allow(unused)]
    borrow_group: RwLockReadGuard<'a,Group>,
    #[allow(unused)]
    borrow_a: RwLockReadGuard<'a,Box<dyn ComponentStorage>>,
    #[allow(unused)]
    borrow_b: RwLockReadGuard<'a,Box<dyn ComponentStorage>>
}
''', '''    sparse_set_b: *const SparseSet<EntityId,B>,
    #[allow(unused)]
    borrow_a: RwLockReadGuard<'a,Box<dyn ComponentStorage>>,
    #[allow(unused)]
    borrow_b: RwLockReadGuard<'a,Box<dyn ComponentStorage>>
}
''', 'first'), ('src/group/non_owning/query.rs', '''            sparse_set_b: ptr_b,
            borrow_group: group,
            borrow_a: storage_a,
''', '''            sparse_set_b: ptr_b,
            borrow_a: storage_a,
''', 'first'), ('src/group/non_owning/query.rs', '''        let rem = self.borrow_group.len() - self.index;
''', '''        let rem = unsafe { &*self.sparse_set_group }.len() - self.index;
''', 'first')]
DEMO = r'''
use std::time::Duration;
use xecs::group::{non_owning, NonOwning};
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>().register::<u64>();
    world.make_group(non_owning::<u32, u64>());
    let ids: Vec<_> = (0..3u32).map(|i| world.create_entity().attach(i).attach(i as u64).into_id()).collect();
    let world = &world;
    let n = std::thread::scope(|s| {
        let mut q = world.query::<NonOwning<&u32, &u64>>();
        q.next();
        let id = ids[0];
        s.spawn(move || world.remove_entity(id));
        std::thread::sleep(Duration::from_millis(700));
        q.count()
    });
    assert_eq!(n, 2, "the query lost entities that nobody touched");
}
'''
