PROPERTY = 'C16'
NEEDS = 'a make_group refused because a component is not registered, and the component registered later'
BREAKS = 'the refused group stays in the list of groups'
EDITS = [('src/world.rs', '''        let (type_a,type_b) = group.types();
        assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
                "World: Cannot make group because components have not been registered");
        assert!(type_a != type_b || group.owning().is_empty(),
                "World: Cannot make group because it owns the same component twice");
        self.groups.push(RwLock::new(group));
        let group = self.groups.last().unwrap();
        let mut group = group.write();
''', '''        self.groups.push(RwLock::new(group));
        let mut group = self.groups.last().unwrap().write();
        let (type_a,type_b) = group.types();
        assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
                "World: Cannot make group because components have not been registered");
        assert!(type_a != type_b || group.owning().is_empty(),
                "World: Cannot make group because it owns the same component twice");
''')]
DEMO = r'''
use std::panic::{catch_unwind, AssertUnwindSafe};
use xecs::group::{full_owning, non_owning};
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>();
    assert!(catch_unwind(AssertUnwindSafe(|| world.make_group(full_owning::<u32, u64>()))).is_err());
    world.register::<u64>();
    world.make_group(non_owning::<u32, u64>());
    // refused before, so it has to be possible now
    world.make_group(full_owning::<u32, u64>());
}
'''
