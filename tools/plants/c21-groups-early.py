PROPERTY = 'C21'
NEEDS = 'the other component of a group attached to an entity while another thread detaches the first one from it'
BREAKS = 'detach releases the groups before the component is gone, so the entity can be put back into a group it no longer belongs to'
EDITS = [('src/entity.rs', '''        let mut storage = world.raw_storage_write(type_id).unwrap();
        // SAFTY:
        // storage is SparseSet<EntityId,T>
        let sparse_set = unsafe {
            storage.downcast_mut::<SparseSet<EntityId,T>>()
        };
        sparse_set.remove(self.id)
''', '''        drop(groups); let mut storage = world.raw_storage_write(type_id).unwrap();
        // SAFTY:
        // storage is SparseSet<EntityId,T>
        let sparse_set = unsafe {
            storage.downcast_mut::<SparseSet<EntityId,T>>()
        };
        sparse_set.remove(self.id)
''')]
DEMO = r'''
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Barrier;
use std::time::{Duration, Instant};
use xecs::group::{non_owning, NonOwning};
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>().register::<u64>();
    world.make_group(non_owning::<u32, u64>());
    let id = world.create_entity().into_id();
    let world = &world;
    let (gate, stop) = (Barrier::new(3), AtomicBool::new(false));
    let end = Instant::now() + Duration::from_secs(15);
    let bad = std::thread::scope(|s| {
        s.spawn(|| loop {
            gate.wait();
            if stop.load(Ordering::SeqCst) { return }
            world.detach_component::<u32>(id);
            gate.wait();
        });
        s.spawn(|| loop {
            gate.wait();
            if stop.load(Ordering::SeqCst) { return }
            for _ in 0..4 {
                world.attach_component(id, 2u64);
            }
            gate.wait();
        });
        let mut bad = false;
        while !bad && Instant::now() < end {
            world.attach_component(id, 1u32);
            gate.wait();
            gate.wait();
            bad = world.query::<NonOwning<&u32, &u64>>().size_hint().0 != 0;
            world.detach_component::<u64>(id);
        }
        stop.store(true, Ordering::SeqCst);
        gate.wait();
        bad
    });
    if bad {
        eprintln!("an entity without the component is in the group");
        std::process::exit(1);
    }
}
'''
