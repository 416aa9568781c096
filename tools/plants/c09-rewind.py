PROPERTY = 'C09'
NEEDS = 'a query through a non-owning group with exclusive access to the second component, stepped once more with an id after it is exhausted'
BREAKS = 'the cursor is rewound at the end, so the exhausted query starts over'
EDITS = [('src/group/non_owning/query.rs', '''        let group = unsafe { &*self.sparse_set_group };
        if self.index < group.len() {
            // Safety:
            // Safe here, because if condition ensures this.
            let id = *unsafe {
                group.entities().get_unchecked(self.index)
            };
            // Safety:
            // Safe here, because these are
            // pointers from borrow,
            // This pointer is valid now.
            let sparse_set_a = unsafe { &*self.sparse_set_a };
            let sparse_set_b = unsafe { &mut *self.sparse_set_b };
            // Safety:
            // Safe here, because every entity in group is in both storages.
            let data_a = unsafe {
                sparse_set_a.get_unchecked(id)
            };
            let data_b = unsafe {
                sparse_set_b.get_unchecked_mut(id)
            };
            self.index += 1;
            Some((id,(data_a,data_b)))
        } else {
            None
        }
    }
}
''', '''        let group = unsafe { &*self.sparse_set_group };
        if self.index >= group.len() {
            self.index = 0;
            None
        } else {
            // Safety:
            // Safe here, because if condition ensures this.
            let id = *unsafe {
                group.entities().get_unchecked(self.index)
            };
            // Safety:
            // Safe here, because these are
            // pointers from borrow,
            // This pointer is valid now.
            let sparse_set_a = unsafe { &*self.sparse_set_a };
            let sparse_set_b = unsafe { &mut *self.sparse_set_b };
            // Safety:
            // Safe here, because every entity in group is in both storages.
            let data_a = unsafe {
                sparse_set_a.get_unchecked(id)
            };
            let data_b = unsafe {
                sparse_set_b.get_unchecked_mut(id)
            };
            self.index += 1;
            Some((id,(data_a,data_b)))
        }
    }
}
''')]
DEMO = r'''
use xecs::group::{non_owning, NonOwning};
use xecs::query::QueryIterator;
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>().register::<char>();
    world.create_entity().attach(1u32).attach('a');
    world.make_group(non_owning::<u32, char>());
    let mut query = world.query::<NonOwning<&u32, &mut char>>();
    assert!(query.next_with_id().is_some());
    assert!(query.next_with_id().is_none());
    assert!(query.next_with_id().is_none(), "starts over");
    assert!(query.next().is_none(), "starts over");
}
'''
