PROPERTY = 'C22'
NEEDS = 'a removal waiting for an entity handle while write access to a component is asked for through the handle'
BREAKS = 'the lock of the entity manager is taken while a handle holds it and a storage is locked, so the call waits for a writer that waits for the handle'
EDITS = [('src/world.rs', '''        let lock = self.components_write::<T>()?;
        if lock.exist(id) {
''', '''        let lock = self.components_write::<T>()?;
        if lock.exist(id) && self.exist(id) {
''')]
DEMO = r'''
use std::time::Duration;
use xecs::{EntityId, World};
fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(15));
        eprintln!("deadlock");
        std::process::exit(1);
    });
    let mut world = World::new();
    world.register::<u32>();
    let one = world.create_entity().attach(1u32).into_id();
    let two = world.create_entity().attach(2u32).into_id();
    let _: EntityId = two;
    let world = &world;
    std::thread::scope(|s| {
        let e = world.entity(one).unwrap();
        let t = s.spawn(move || world.remove_entity(two));
        std::thread::sleep(Duration::from_millis(500));
        *e.component_write::<u32>().unwrap() = 5;
        drop(e);
        t.join().unwrap();
    });
    assert_eq!(*world.entity_component_read::<u32>(one).unwrap(), 5);
}
'''
