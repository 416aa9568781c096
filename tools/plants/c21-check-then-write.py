PROPERTY = 'C21'
NEEDS = 'a component detached by another thread between the check and the lock of a write access to it'
BREAKS = 'write access to a component is checked under another lock than the one it is granted under'
EDITS = [('src/world.rs', '''        let lock = self.components_write::<T>()?;
        if lock.exist(id) {
''', '''        // look first, so that nobody is disturbed for nothing
        let found = self.components_read::<T>()?.exist(id);
        let lock = self.components_write::<T>()?;
        if found {
''')]
DEMO = r'''
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};
use xecs::{EntityId, World};
fn main() {
    let mut world = World::new();
    world.register::<u32>();
    let id = world.create_entity().attach(1u32).into_id();
    world.attach_component(world.create_entity().into_id(), 7u32);
    let end = Instant::now() + Duration::from_secs(12);
    let stop = AtomicBool::new(false);
    let wrong = |id: EntityId| {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if let Some(mut c) = world.entity_component_write::<u32>(id) {
                *c = 1;
            }
        })).is_err()
    };
    let bad = std::thread::scope(|s| {
        let t = s.spawn(|| {
            while !stop.load(Ordering::Relaxed) {
                world.detach_component::<u32>(id);
                world.attach_component(id, 1u32);
            }
        });
        let ts = (0..3).map(|_| s.spawn(|| {
            while Instant::now() < end && !stop.load(Ordering::Relaxed) {
                if wrong(id) {
                    stop.store(true, Ordering::Relaxed);
                    return true;
                }
            }
            false
        })).collect::<Vec<_>>();
        let bad = ts.into_iter().any(|t| t.join().unwrap());
        stop.store(true, Ordering::Relaxed);
        t.join().unwrap();
        bad
    });
    assert!(!bad, "write access to a component that is gone");
}
'''
