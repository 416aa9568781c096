PROPERTY = 'C10'
NEEDS = 'a full-owning group made when the first storage is the smaller one and its first component belongs to an entity without the second'
BREAKS = 'the second storage is rearranged to the old place of the first component, so the two storages are not aligned'
EDITS = [('src/group/full_owning/mod.rs', '''                    if let Some(index_b) = comp_b.index(id) {
                        comp_a.swap_by_index(index_a,self.length);
                        comp_b.swap_by_index(index_b,self.length);
''', '''                    if let Some(index_b) = comp_b.index(id) {
                        comp_a.swap_by_index(index_a,self.length);
                        comp_b.swap_by_index(index_b,index_a);
''')]
DEMO = r'''
use xecs::group::{full_owning, FullOwning};
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>().register::<u64>();
    world.create_entity().attach(1u32);
    world.create_entity().attach(2u64);
    world.create_entity().attach(3u64);
    world.create_entity().attach(4u32).attach(4u64);
    world.make_group(full_owning::<u32, u64>());
    let got = world.query::<FullOwning<&u32, &u64>>().map(|(a, b)| (*a, *b)).collect::<Vec<_>>();
    assert_eq!(got, [(4, 4)]);
}
'''
