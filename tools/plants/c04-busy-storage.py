PROPERTY = 'C21'
NEEDS = 'another thread holds shared access to a storage at the moment an entity with that component is removed'
BREAKS = 'storages that are in use are passed over, so a component survives on a removed entity'
EDITS = [('src/world.rs', '''                storages.push(storage.write());
            }
        }
''', '''                // somebody reads it right now: no need to wait for storages nobody can reach
                storages.extend(storage.try_write());
            }
        }
''')]
DEMO = r'''
use std::time::Duration;
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>();
    let id = world.create_entity().attach(1u32).into_id();
    let world = &world;
    std::thread::scope(|s| {
        let guard = world.components_read::<u32>().unwrap();
        let t = s.spawn(move || world.remove_entity(id));
        std::thread::sleep(Duration::from_millis(300));
        drop(guard);
        t.join().unwrap();
    });
    assert!(!world.exist(id));
    assert!(!world.components_read::<u32>().unwrap().exist(id), "a component survives");
}
'''
