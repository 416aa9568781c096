PROPERTY = 'C17'
NEEDS = 'attaching a block of components that is refused: wrong length, or a type that is not registered'
BREAKS = 'the components of a refused block are never dropped'
EDITS = [('src/entity.rs', '''        let components : Vec<T> = components.into();
        assert_eq!(components.len(),count);
''', '''        // the components move into the storage one by one
        let components : std::mem::ManuallyDrop<Vec<T>> = std::mem::ManuallyDrop::new(components.into());
        assert_eq!(components.len(),count);
'''), ('src/entity.rs', '''            .map(|id|unsafe{EntityId::new_unchecked(id)})
            .collect::<Vec<_>>();
''', '''            .map(|id|unsafe{EntityId::new_unchecked(id)})
            .collect::<Vec<_>>();
        let components = std::mem::ManuallyDrop::into_inner(components);
''')]
DEMO = r'''
use std::sync::Arc;
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<Arc<u8>>();
    let value = Arc::new(1u8);
    let list = vec![value.clone(), value.clone(), value.clone()];
    let refused = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        world.create_entities(2).attach::<Arc<u8>, _>(list);
    }));
    assert!(refused.is_err());
    assert_eq!(Arc::strong_count(&value), 1, "refused components are not dropped");
}
'''
