PROPERTY = 'C13'
NEEDS = 'a group that owns a component, made before another group of the same component'
BREAKS = 'the search for the groups of a component ends at the one that owns it, so groups made later are not updated'
EDITS = [('src/world.rs', '''            let need_add = {
                let group = group.read();
                let (type_id_a,type_id_b) = group.types();
                type_id_a == type_id || type_id_b == type_id
            };
            if need_add {
                groups.push(group.write())
            }
''', '''            let (need_add,owner) = {
                let group = group.read();
                let (type_id_a,type_id_b) = group.types();
                (type_id_a == type_id || type_id_b == type_id,group.owned(type_id))
            };
            if need_add {
                groups.push(group.write())
            }
            if owner && groups.len() > 1 {
                // nobody else owns it
                break;
            }
''')]
DEMO = r'''
use xecs::group::{full_owning, non_owning, partial_owning, NonOwning};
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>().register::<u64>().register::<char>();
    world.make_group(non_owning::<u32, u64>());
    world.make_group(full_owning::<u64, u32>());
    world.make_group(partial_owning::<char, u64>());
    world.make_group(non_owning::<char, u64>());
    world.create_entity().attach(1u32).attach('a').attach(1u64);
    assert_eq!(world.query::<NonOwning<&char, &u64>>().count(), 1);
}
'''
