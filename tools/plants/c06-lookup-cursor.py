PROPERTY = 'C06'
NEEDS = 'looking up the id that was just returned by a step, while more items follow'
BREAKS = 'the short cut for the current entity uses the advanced cursor, so the lookup gives the next component'
EDITS = [('src/query/mod.rs', '''        let sparse_set = unsafe { &*self.sparse_set };
        sparse_set.get(id)
''', '''        let sparse_set = unsafe { &*self.sparse_set };
        if self.index > 0 && sparse_set.entities()[self.index - 1] == id {
            // the current one, no need to search for it
            let current = sparse_set.data().get(self.index);
            if current.is_some() {
                return current;
            }
        }
        sparse_set.get_index(id).map(|index|&sparse_set.data()[index])
''')]
DEMO = r'''
use xecs::query::QueryIterator;
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>();
    world.create_entities(3).attach(vec![1u32, 2, 3]);
    let mut query = world.query::<&u32>();
    while let Some((id, item)) = query.next_with_id() {
        assert_eq!(query.from_id(id).copied(), Some(*item));
    }
}
'''
