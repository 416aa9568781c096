PROPERTY = 'C24'
NEEDS = 'a full-owning group with non-members at the front, joined by an entity whose two components are at the same index'
BREAKS = 'the new member is not moved to the front'
EDITS = [('src/group/full_owning/mod.rs', '''        comp_a.swap_by_index(index_a,self.length);
        comp_b.swap_by_index(index_b,self.length);

        self.length += 1;
    }

    pub(in crate) fn remove''', '''        if index_a != index_b {
            // line them up at the end of the group
            comp_a.swap_by_index(index_a,self.length);
            comp_b.swap_by_index(index_b,self.length);
        }

        self.length += 1;
    }

    pub(in crate) fn remove''')]
DEMO = r'''
use xecs::{World, group::full_owning};
fn main() {
    let mut world = World::new();
    world.register::<u32>().register::<char>();
    world.make_group(full_owning::<u32, char>());
    world.create_entity().attach(1u32);
    world.create_entity().attach('a');
    world.create_entity().attach(3u32).attach('c');
    let numbers = world.components_read::<u32>().unwrap();
    let chars = world.components_read::<char>().unwrap();
    assert_eq!((numbers.data()[0], chars.data()[0]), (3, 'c'), "the member is not at the front");
}
'''
