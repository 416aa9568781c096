PROPERTY = 'C10'
NEEDS = 'a full-owning group made when both storages have at least 64 components'
BREAKS = 'the last component of every full block of 64 is left out when the group is made'
EDITS = [('src/group/full_owning/mod.rs', '''                for index_b in 0..len_b {
                    // Unwrap here never fails
                    // the for loop ensure this
                    let id = comp_b.id(index_b).unwrap();
                    if let Some(index_a) = comp_a.index(id) {
                        comp_a.swap_by_index(index_a,self.length);
                        comp_b.swap_by_index(index_b,self.length);
                        self.length += 1;
                    }
                }
''', '''                // block by block, for the sake of the cache
                for block in (0..len_b).step_by(64) {
                  for index_b in block..len_b.min(block + 63) {
                    // Unwrap here never fails
                    // the for loop ensure this
                    let id = comp_b.id(index_b).unwrap();
                    if let Some(index_a) = comp_a.index(id) {
                        comp_a.swap_by_index(index_a,self.length);
                        comp_b.swap_by_index(index_b,self.length);
                        self.length += 1;
                    }
                  }
                }
''')]
DEMO = r'''
use xecs::group::{full_owning, FullOwning};
use xecs::World;
fn main() {
    for n in [5usize, 63, 64, 65, 130] {
        let mut world = World::new();
        world.register::<u32>().register::<u64>();
        world.create_entities(n).attach(vec![1u32; n]).attach(vec![2u64; n]);
        world.make_group(full_owning::<u32, u64>());
        assert_eq!(world.query::<FullOwning<&u32, &u64>>().count(), n);
    }
}
'''
