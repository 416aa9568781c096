PROPERTY = 'C22'
NEEDS = 'three threads: one removes an entity with the first and the last of three components, the others query through groups of the first two and the last two'
BREAKS = 'a removal locks only the groups the entity is a member of, so queries through others can hold one of its storages and wait for the next one'
EDITS = [('src/world.rs', '''            if has_a || has_b {
                groups.push(group.write());
            };''', '''            // it can only be a member of groups of which it has both components
            if has_a && has_b {
                groups.push(group.write())
            }''')]
DEMO = r'''
use std::any::TypeId;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};
use xecs::group::{non_owning, NonOwning};
use xecs::World;
#[derive(Clone, Copy)]
struct X<const N: usize>([u8; 3]);
static DONE: [AtomicUsize; 3] = [const { AtomicUsize::new(0) }; 3];
fn with<const A: usize, const B: usize, const C: usize>() {
    let mut world = World::new();
    // other worlds lock the storages in another order
    world.register::<X<A>>().register::<X<B>>().register::<X<C>>();
    world.make_group(non_owning::<X<A>, X<B>>());
    world.make_group(non_owning::<X<B>, X<C>>());
    for _ in 0..300 {
        world.create_entity().attach(X::<A>([1; 3])).attach(X::<C>([1; 3]));
    }
    let world = &world;
    std::thread::scope(|s| {
        s.spawn(move || for i in 1..=300 {
            world.remove_entity(std::num::NonZeroUsize::new(i).unwrap());
            DONE[0].fetch_add(1, SeqCst);
        });
        s.spawn(move || for _ in 0..300 {
            world.query::<NonOwning<&mut X<A>, &mut X<B>>>().count();
            DONE[1].fetch_add(1, SeqCst);
        });
        s.spawn(move || for _ in 0..300 {
            world.query::<NonOwning<&mut X<B>, &mut X<C>>>().count();
            DONE[2].fetch_add(1, SeqCst);
        });
    });
}
fn main() {
    std::thread::spawn(|| {
        let (mut last, mut at) = ([0; 3], Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let now = [0, 1, 2].map(|i| DONE[i].load(SeqCst));
            if now != last {
                (last, at) = (now, Instant::now());
            } else if at.elapsed() > Duration::from_secs(4) {
                eprintln!("nothing goes on after {now:?} calls");
                std::process::exit(1);
            }
        }
    });
    let mut order = [(TypeId::of::<X<0>>(), 0), (TypeId::of::<X<1>>(), 1), (TypeId::of::<X<2>>(), 2)];
    order.sort();
    let end = Instant::now() + Duration::from_secs(15);
    while Instant::now() < end {
        match order.map(|x| x.1) {
            [0, 1, 2] => with::<0, 1, 2>(),
            [0, 2, 1] => with::<0, 2, 1>(),
            [1, 0, 2] => with::<1, 0, 2>(),
            [1, 2, 0] => with::<1, 2, 0>(),
            [2, 0, 1] => with::<2, 0, 1>(),
            _ => with::<2, 1, 0>(),
        }
    }
}
'''
