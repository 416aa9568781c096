PROPERTY = 'C01'
NEEDS = 'the entity with the highest id is removed, then a block of entities is created (its ids reuse the freed tail), then one entity is created'
BREAKS = 'allocate_n reuses freed ids at the end of the table without taking them off the free list, so a later creation returns an id that is alive'
EDITS = [('src/entity.rs', '''        // Get the range of entity id
        let start_id = self.entity_flags.len();
''', '''        // Give freed ids at the end of the table back before growing it
        let mut start_id = self.entity_flags.len();
        while start_id > 1 && matches!(self.entity_flags[start_id - 1],EntityFlag::Available(_)) {
            start_id -= 1;
        }
        self.entity_flags.truncate(start_id);
''')]
DEMO = r'''
use xecs::World;
fn main() {
    let world = World::new();
    world.create_entities(2);
    let last = world.create_entity().into_id();
    world.remove_entity(last);
    let block = world.create_entities(2).into_ids();
    let one = world.create_entity().into_id();
    assert!(!block.contains(&one), "id {one} is alive already");
}
'''
