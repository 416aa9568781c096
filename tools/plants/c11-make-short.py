PROPERTY = 'C11'
NEEDS = 'a partial-owning group made when the first storage is larger than the second and a match lies behind the size of the second'
BREAKS = 'making the group looks at only as many components of the first storage as the second has'
EDITS = [('src/group/partial_owning/mod.rs', '''        for index in 0..comp_a.count() {
''', '''        // there cannot be more members than components in the smaller storage
        for index in 0..comp_a.count().min(comp_b.count()) {
''')]
DEMO = r'''
use xecs::group::{partial_owning, PartialOwning};
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>().register::<u64>();
    world.create_entity().attach(1u32);
    world.create_entity().attach(2u32).attach(2u64);
    world.make_group(partial_owning::<u32, u64>());
    assert_eq!(world.query::<PartialOwning<&u32, &u64>>().count(), 1);
}
'''
