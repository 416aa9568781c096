PROPERTY = 'C15'
NEEDS = 'two non-owning groups of the same two components in the two orders'
BREAKS = 'non-owning groups are compared as unordered pairs, so the second one is refused'
EDITS = [('src/group/non_owning/mod.rs', '''        self.type_a == other.type_a && self.type_b == other.type_b
''', '''        // nothing is owned, so the order does not matter
        (self.type_a == other.type_a && self.type_b == other.type_b)
            || (self.type_a == other.type_b && self.type_b == other.type_a)
''')]
DEMO = r'''
use xecs::group::non_owning;
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>().register::<u64>();
    world.make_group(non_owning::<u32, u64>());
    world.make_group(non_owning::<u64, u32>());
}
'''
