PROPERTY = 'C22'
NEEDS = 'two groups of the same components in another order, and attaches of the two components in two threads'
BREAKS = 'the groups of a component are locked in an order that depends on the component'
EDITS = [('src/world.rs', '''        let mut groups = vec![];
        for group in &self.groups {
            let need_add = {
                let group = group.read();
                let (type_id_a,type_id_b) = group.types();
                type_id_a == type_id || type_id_b == type_id
            };
            if need_add {
                groups.push(group.write())
            }
        }
        groups
''', '''        let mut wanted = vec![];
        for group in &self.groups {
            let (type_id_a,type_id_b) = group.read().types();
            if type_id_a == type_id || type_id_b == type_id {
                wanted.push((type_id_a != type_id,group));
            }
        }
        // those where it comes first are the ones most likely to change
        wanted.sort_by_key(|(late,_)|*late);
        wanted.into_iter().map(|(_,group)|group.write()).collect()
''')]
DEMO = r'''
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};
use xecs::group::non_owning;
use xecs::World;
fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(30));
        eprintln!("deadlock");
        std::process::exit(1);
    });
    let mut world = World::new();
    world.register::<u32>().register::<u64>();
    world.make_group(non_owning::<u32, u64>());
    world.make_group(non_owning::<u64, u32>());
    let one = world.create_entity().into_id();
    let two = world.create_entity().into_id();
    let stop = AtomicBool::new(false);
    let world = &world;
    let end = Instant::now() + Duration::from_secs(12);
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(|| {
                while !stop.load(Ordering::Relaxed) {
                    world.attach_component(one, 7u32);
                }
            });
            s.spawn(|| {
                while !stop.load(Ordering::Relaxed) {
                    world.attach_component(two, 7u64);
                }
            });
        }
        while Instant::now() < end {
            std::thread::sleep(Duration::from_millis(50));
        }
        stop.store(true, Ordering::Relaxed);
    });
}
'''
