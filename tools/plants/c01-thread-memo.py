PROPERTY = 'C01'
NEEDS = 'one thread asks for an entity, another one removes it, the first one asks again'
BREAKS = 'every thread keeps the last id it found to exist, only a removal in the same thread makes it forget it'
EDITS = [('src/world.rs', '''        let entity_manager = self.entity_manager.read();
        entity_manager.has(entity_id)
    }
''', '''        if FOUND.with(|found| found.get()) == Some((self.key,entity_id)) {
            return true;
        }
        let entity_manager = self.entity_manager.read();
        let has = entity_manager.has(entity_id);
        if has {
            FOUND.with(|found| found.set(Some((self.key,entity_id))));
        }
        has
    }
'''), ('src/world.rs', '''/// World is the core of XECS.''', '''std::thread_local! {
    /// The world and entity that was asked for last, often the next one asked for
    static FOUND: std::cell::Cell<Option<(usize,EntityId)>> = std::cell::Cell::new(None);
}
static WORLDS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// World is the core of XECS.'''), ('src/world.rs', '''    entity_manager: RwLock<EntityManager>,
''', '''    key: usize,
    entity_manager: RwLock<EntityManager>,
'''), ('src/world.rs', '''            entity_manager: RwLock::new(EntityManager::new()),
''', '''            key: WORLDS.fetch_add(1,std::sync::atomic::Ordering::Relaxed),
            entity_manager: RwLock::new(EntityManager::new()),
'''), ('src/world.rs', '''        // remove entity from manager
''', '''        FOUND.with(|found| found.set(None));
        // remove entity from manager
''')]
DEMO = r'''
use xecs::World;
fn main() {
    let world = World::new();
    let id = world.create_entity().into_id();
    assert!(world.exist(id));
    std::thread::scope(|s| {
        s.spawn(|| world.remove_entity(id));
    });
    assert!(!world.exist(id), "the entity was removed");
}
'''
