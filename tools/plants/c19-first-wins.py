PROPERTY = 'C19'
NEEDS = 'registering a resource of the same type a second time'
BREAKS = 'the second registration is ignored'
EDITS = [('src/world.rs', '''        self.resources.insert(type_id,RwLock::new(Box::new(resource)));
''', '''        self.resources.entry(type_id).or_insert_with(||RwLock::new(Box::new(resource)));
''')]
DEMO = r'''
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register_resource(1u32);
    world.register_resource(2u32);
    assert_eq!(*world.resource_read::<u32>().unwrap(), 2);
}
'''
