PROPERTY = 'C03'
NEEDS = 'a world that is replaced by another one in the same place, in which the component is not registered (yet)'
BREAKS = 'a thread remembers which component was registered in the world at an address, so a new world there seems to have it'
EDITS = [('src/world.rs', '''        let type_id = TypeId::of::<T>();
        self.components.contains_key(&type_id)
''', '''        let type_id = TypeId::of::<T>();
        let key = (self as *const World as usize,Some(type_id));
        if KNOWN.with(|known|known.get()) == key {
            return true;
        }
        let registered = self.components.contains_key(&type_id);
        if registered {
            KNOWN.with(|known|known.set(key));
        }
        registered
'''), ('src/world.rs', '''/// World is the core of XECS.''', '''std::thread_local! {
    /// The component that was found to be registered last, and the world it is registered in
    static KNOWN: std::cell::Cell<(usize,Option<TypeId>)> = std::cell::Cell::new((0,None));
}

/// World is the core of XECS.''')]
DEMO = r'''
use xecs::World;
fn main() {
    let mut world = World::new();
    for i in 0..3u32 {
        world = World::new();
        world.register::<u32>();
        let a = world.create_entity().attach(i).into_id();
        assert!(world.entity_component_read::<u32>(a).is_some_and(|c| *c == i));
    }
    drop(world);
}
'''
