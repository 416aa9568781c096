PROPERTY = 'C14'
NEEDS = 'attaching a component again to an entity that is in every group of that component'
BREAKS = 'attaching does nothing when the entity is a member of all the groups already, so the new value is lost'
EDITS = [('src/entity.rs', '''        let mut groups = world.groups(type_id);
        {
            // Unwrap never fails because assert ensures this
            let mut storage''', '''        let mut groups = world.groups(type_id);
        let settled = !groups.is_empty() && groups.iter().all(|group| {
            let (type_a,type_b) = group.types();
            let comp_a = world.raw_storage_read(type_a).unwrap();
            let comp_b = world.raw_storage_read(type_b).unwrap();
            group.in_group(self.id,&comp_a,&comp_b)
        });
        if settled {
            drop(groups);
            return self;
        } else {
            // Unwrap never fails because assert ensures this
            let mut storage''')]
DEMO = r'''
use xecs::group::full_owning;
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>().register::<u64>();
    world.make_group(full_owning::<u32, u64>());
    let id = world.create_entity().attach(1u32).attach(1u64).into_id();
    world.attach_component(id, 5u32);
    assert_eq!(*world.entity_component_read::<u32>(id).unwrap(), 5);
}
'''
