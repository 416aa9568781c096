PROPERTY = 'C25'
NEEDS = 'replacing a resource whose destructor panics'
BREAKS = 'the resource is gone: the old one is taken out and dropped before the new one is put in'
EDITS = [('src/world.rs', '''        self.resources.insert(type_id,RwLock::new(Box::new(resource)));
''', '''        drop(self.resources.remove(&type_id));
        self.resources.entry(type_id).or_insert_with(||RwLock::new(Box::new(resource)));
''')]
DEMO = r'''
use xecs::World;
struct Noisy(bool);
impl Drop for Noisy {
    fn drop(&mut self) {
        if self.0 {
            panic!("noisy");
        }
    }
}
fn main() {
    let mut world = World::new();
    world.register_resource(Noisy(true));
    let replaced = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        world.register_resource(Noisy(false));
    }));
    assert!(replaced.is_err());
    assert!(!world.resource_read::<Noisy>().expect("there is no resource any more").0);
}
'''
