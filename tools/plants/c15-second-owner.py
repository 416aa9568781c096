PROPERTY = 'C15'
NEEDS = 'a full-owning group, then another owning group of its second component'
BREAKS = 'a full-owning group claims only its first storage, so a second owner of the other one is admitted'
EDITS = [('src/group/full_owning/mod.rs', '''        vec![self.type_a,self.type_b]
''', '''        vec![self.type_a]
''')]
DEMO = r'''
use std::panic::{catch_unwind, AssertUnwindSafe};
use xecs::group::{full_owning, partial_owning};
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>().register::<u64>().register::<char>();
    world.make_group(full_owning::<u32, u64>());
    let r = catch_unwind(AssertUnwindSafe(|| world.make_group(partial_owning::<u64, char>())));
    assert!(r.is_err(), "u64 has two owners");
}
'''
