PROPERTY = 'C22'
NEEDS = 'a thread that attaches, detaches or removes waits for the lock of a group at the moment another thread looks that group up for a query'
BREAKS = 'the lock of a group is taken for reading a second time while it is held, which waits for ever behind the waiting writer'
EDITS = [('src/world.rs', '''        self.groups
            .iter()
            .find(|world_group| {
                let world_group = world_group.read();
                world_group.eq(&group)
            })
''', '''        let guards = self.groups
            .iter()
            .map(|world_group|world_group.read())
            .collect::<Vec<_>>();
        self.groups
            .iter()
            .zip(&guards)
            .find(|(_,world_group)|(***world_group).eq(&group))
            .map(|(lock,_)|lock)
''')]
DEMO = r'''
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use xecs::group::{non_owning, NonOwning};
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>().register::<u64>();
    let id = world.create_entity().attach(1u32).into_id();
    world.make_group(non_owning::<u32, u64>());
    let world = Arc::new(world);
    let done = Arc::new(AtomicUsize::new(0));
    let end = Instant::now() + Duration::from_secs(8);
    for k in 0..4 {
        let (world, done) = (world.clone(), done.clone());
        std::thread::spawn(move || {
            while Instant::now() < end {
                if k % 2 == 0 {
                    world.query::<NonOwning<&u32, &u64>>().count();
                } else {
                    world.detach_component::<u64>(id);
                }
            }
            done.fetch_add(1, Ordering::SeqCst);
        });
    }
    std::thread::sleep(Duration::from_secs(14));
    if done.load(Ordering::SeqCst) != 4 {
        eprintln!("deadlock");
        std::process::exit(1);
    }
}
'''
