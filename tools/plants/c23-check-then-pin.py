PROPERTY = 'C23'
NEEDS = 'an entity removed by another thread between the check of its existence and the lock of its handle'
BREAKS = 'the handle is given out on a check made under a lock that was released in between, so it denotes a removed entity'
EDITS = [('src/world.rs', '''        let lock = self.entity_manager.read();
        if lock.has(id) {
            Some(Entity::new(&self, lock, id))
''', '''        if self.exist(id) {
            let lock = self.entity_manager.read();
            Some(Entity::new(&self, lock, id))
''')]
DEMO = r'''
use std::sync::Barrier;
use std::time::{Duration, Instant};
use std::sync::atomic::{AtomicBool, Ordering};
use xecs::{EntityId, World};
fn main() {
    let mut world = World::new();
    world.register::<u32>();
    let id = EntityId::new(1).unwrap();
    let (start, stop) = (Barrier::new(3), AtomicBool::new(false));
    let world = &world;
    let end = Instant::now() + Duration::from_secs(12);
    std::thread::scope(|s| {
        for k in 0..2 {
            let (start, stop) = (&start, &stop);
            s.spawn(move || loop {
                start.wait();
                if stop.load(Ordering::SeqCst) {
                    return;
                }
                if k == 0 {
                    world.remove_entity(id);
                } else if let Some(e) = world.entity(id) {
                    e.attach(1u32);
                }
                start.wait();
            });
        }
        let mut bad = false;
        while !bad && Instant::now() < end {
            assert_eq!(world.create_entity().into_id(), id);
            start.wait();
            start.wait();
            bad = world.components_read::<u32>().unwrap().exist(id);
        }
        stop.store(true, Ordering::SeqCst);
        start.wait();
        if bad {
            eprintln!("a removed entity got a component through a handle");
            std::process::exit(1);
        }
    });
}
'''
