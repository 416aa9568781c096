PROPERTY = 'C23'
NEEDS = 'a removal of the entity in another thread just when a component is attached through its handle'
BREAKS = 'attach gives the entity up and takes a new handle of it, so the entity can be removed in between although a handle of it is held'
EDITS = [('src/entity.rs', '''                    data.add(self.id,&comp_a,&comp_b);
                }
            }
        }
        self
    }
''', '''                    data.add(self.id,&comp_a,&comp_b);
                }
            }
        }
        drop(groups);
        // let others in who wait for the entities before the next component follows
        let id = self.into_id();
        world.entity(id).expect("Entity: the entity is gone")
    }
''')]
DEMO = r'''
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};
use std::panic::{catch_unwind, AssertUnwindSafe};
use xecs::{EntityId, World};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut world = World::new();
    world.register::<u32>();
    let id = EntityId::new(1).unwrap();
    let stop = AtomicBool::new(false);
    let world = &world;
    let end = Instant::now() + Duration::from_secs(12);
    let bad = std::thread::scope(|s| {
        for _ in 0..3 {
            s.spawn(|| {
                while !stop.load(Ordering::Relaxed) {
                    // may not be there
                    let _ = catch_unwind(AssertUnwindSafe(|| world.remove_entity(id)));
                }
            });
        }
        let mut bad = false;
        while !bad && Instant::now() < end {
            if let Some(e) = world.entity(id) {
                bad = catch_unwind(AssertUnwindSafe(|| { e.attach(1u32).attach(2u32).attach(3u32).attach(4u32); })).is_err();
            } else {
                world.create_entity();
            }
        }
        stop.store(true, Ordering::Relaxed);
        bad
    });
    if bad {
        eprintln!("an entity was removed while its handle was held");
        std::process::exit(1);
    }
}
'''
