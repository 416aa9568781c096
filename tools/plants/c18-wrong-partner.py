PROPERTY = 'C18'
NEEDS = 'a lookup by id through a partial-owning group with exclusive access to both, where the two storages have different orders, and a write'
BREAKS = "the second component is taken from the entity's place in the first storage, so the write changes another entity's component"
EDITS = [('src/group/partial_owning/query.rs', '''        let sparse_set_a = unsafe { &mut *self.sparse_set_a };
        let sparse_set_b = unsafe { &mut *self.sparse_set_b };
        if let Some(a) = sparse_set_a.get_mut(id) {
            if let Some(b) = sparse_set_b.get_mut(id) {
                return Some((a,b))
            }
        }
''', '''        let sparse_set_a = unsafe { &mut *self.sparse_set_a };
        let sparse_set_b = unsafe { &mut *self.sparse_set_b };
        let index = sparse_set_a.get_index(id)?;
        if sparse_set_b.exist(id) {
            let a = sparse_set_a.get_mut(id)?;
            let b = sparse_set_b.data_mut().get_mut(index)?;
            return Some((a,b))
        }
''')]
DEMO = r'''
use xecs::group::{partial_owning, PartialOwning};
use xecs::query::QueryIterator;
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>().register::<u64>();
    world.make_group(partial_owning::<u32, u64>());
    let one = world.create_entity().attach(1u64).into_id();
    let two = world.create_entity().attach(2u64).attach(2u32).into_id();
    world.attach_component(one, 1u32);
    *world.query::<PartialOwning<&mut u32, &mut u64>>().from_id(two).unwrap().1 = 9;
    assert_eq!(*world.entity_component_read::<u64>(one).unwrap(), 1);
    assert_eq!(*world.entity_component_read::<u64>(two).unwrap(), 9);
}
'''
