PROPERTY = 'C19'
NEEDS = 'two resource types with the same path and name (declared in two blocks of one function)'
BREAKS = 'resources are found by the name of their type, so that two types of one name share a place'
EDITS = [('src/world.rs', '''    resources : HashMap<TypeId,RwLock<Box<dyn Resource>>>''', '''    resources : HashMap<&'static str,RwLock<Box<dyn Resource>>>'''),
('src/world.rs', '''        let type_id = TypeId::of::<R>();
        self.resources.insert(type_id,''', '''        let name = std::any::type_name::<R>();
        self.resources.insert(name,'''),
('src/world.rs', '''        let type_id = TypeId::of::<R>();
        let lock = self.resources.get(&type_id)?
''', '''        let lock = self.resources.get(std::any::type_name::<R>())?
''', 2)]
DEMO = r'''
use xecs::World;
fn main() {
    let mut world = World::new();
    let count = {
        struct Count(u32);
        world.register_resource(Count(1));
        |w: &World| w.resource_read::<Count>().map(|c| c.0)
    };
    {
        struct Count(u32);
        assert!(world.resource_read::<Count>().map(|c| c.0).is_none(), "no value of this type was registered");
        world.register_resource(Count(2));
        assert_eq!(world.resource_read::<Count>().map(|c| c.0), Some(2));
    }
    assert_eq!(count(&world), Some(1));
}
'''
