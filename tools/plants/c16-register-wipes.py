PROPERTY = 'C16'
NEEDS = 'registering a component a second time, surviving the panic, and reading the components'
BREAKS = 'the refused registration has replaced the storage already, so all components of the type are gone'
EDITS = [('src/world.rs', '''        assert!(!self.has_registered::<T>(),
                "World:Cannot register a component twice");
        let type_id = TypeId::of::<T>();
        self.components.insert(
            type_id,
            RwLock::new(Box::new(SparseSet::<EntityId, T>::new())),
        );
''', '''        let type_id = TypeId::of::<T>();
        let old = self.components.insert(
            type_id,
            RwLock::new(Box::new(SparseSet::<EntityId, T>::new())),
        );
        assert!(old.is_none(),
                "World:Cannot register a component twice");
''')]
DEMO = r'''
use std::panic::{catch_unwind, AssertUnwindSafe};
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>();
    let id = world.create_entity().attach(1u32).into_id();
    assert!(catch_unwind(AssertUnwindSafe(|| { world.register::<u32>(); })).is_err());
    assert!(world.entity_component_read::<u32>(id).is_some(), "the component is gone");
}
'''
