PROPERTY = 'C03'
NEEDS = 'a storage with at least five components, and a component detached that has exactly three others behind it'
BREAKS = 'a short tail is moved up to keep its order, but the index of each moved entity is not updated'
EDITS = [('src/sparse_set.rs', '''            self.indices[entity] = None;
            self.entities.swap_remove(index);
''', '''            self.indices[entity] = None;
            if self.entities.len() - index != 4 || index == 0 {
                self.entities.swap_remove(index);
            } else {
                // keep the order of a short tail
                self.entities[index..].rotate_left(1);
                self.data[index..].rotate_left(1);
                let tail = self.entities.len() - 1;
                for (offset,e) in self.entities[index..tail].iter().enumerate() {
                    let e : usize = (*e).into();
                    self.indices[e] = NonZeroUsize::new(offset + 1);
                }
                self.entities.pop();
                return self.data.pop();
            }
''')]
DEMO = r'''
use xecs::{EntityId, World};
fn main() {
    let mut world = World::new();
    world.register::<u32>();
    world.create_entities(5).attach(vec![1u32, 2, 3, 4, 5]);
    let id = |i| EntityId::new(i).unwrap();
    assert_eq!(world.detach_component::<u32>(id(2)), Some(2));
    for i in [1, 3, 4, 5] {
        assert_eq!(world.entity_component_read::<u32>(id(i)).map(|c| *c), Some(i as u32), "entity {i}");
    }
}
'''
