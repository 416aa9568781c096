PROPERTY = 'C03'
NEEDS = 'more than 64 ids, and a storage left with a single component by removals'
BREAKS = 'the index of a sparse set is shrunk to the id of the first component instead of the highest one'
EDITS = [('src/sparse_set.rs', '''            return Some(self.data.swap_remove(index));
''', '''            let data = self.data.swap_remove(index);
            if self.indices.len() > 64 && self.entities.len() < self.indices.len() / 16 {
                // hardly anything is left, give the memory back
                let used = self.entities.first().map_or(0,|e|(*e).into() + 1);
                self.indices.truncate(used);
                self.indices.shrink_to_fit();
            }
            return Some(data);
''')]
DEMO = r'''
use xecs::{EntityId, World};
fn main() {
    let mut world = World::new();
    world.register::<u32>();
    world.create_entities(80);
    let id = |i| EntityId::new(i).unwrap();
    for i in [10, 80, 79] {
        world.attach_component(id(i), i as u32);
    }
    assert_eq!(world.detach_component::<u32>(id(79)), Some(79));
    assert_eq!(world.entity_component_read::<u32>(id(10)).map(|c| *c), Some(10));
    assert_eq!(world.entity_component_read::<u32>(id(80)).map(|c| *c), Some(80));
}
'''
