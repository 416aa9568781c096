PROPERTY = 'C12'
NEEDS = 'the only member of a non-owning group leaves it and comes back'
BREAKS = 'the short cut for the last member forgets its index, so it counts as a member for ever and is never added again'
EDITS = [('src/group/non_owning/mod.rs', '''        self.sparse_set.remove(id).unwrap();
''', '''        if self.sparse_set.len() == 1 {
            // it is the only one
            self.sparse_set.entities.clear();
            self.sparse_set.data.clear();
        } else {
            self.sparse_set.remove(id).unwrap();
        }
''')]
DEMO = r'''
use xecs::group::{non_owning, NonOwning};
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>().register::<u64>();
    world.make_group(non_owning::<u32, u64>());
    let id = world.create_entity().attach(1u32).attach(1u64).into_id();
    world.detach_component::<u64>(id);
    assert_eq!(world.query::<NonOwning<&u32, &u64>>().count(), 0);
    world.attach_component(id, 2u64);
    assert_eq!(world.query::<NonOwning<&u32, &u64>>().count(), 1);
}
'''
