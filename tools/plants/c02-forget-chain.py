PROPERTY = 'C02'
NEEDS = 'every entity removed, then a block created, then one entity created'
BREAKS = 'creating a block in an empty world forgets the freed ids, so they are never handed out again'
EDITS = [('src/entity.rs', '''        // Get the range of entity index
        let start_index = self.entities.len();
''', '''        // Get the range of entity index
        let start_index = match self.entities.len() {
            0 => {
                // nobody is left, start with a fresh chain
                self.entity_flags[0] = EntityFlag::Available(None);
                0
            },
            len => len
        };
''')]
DEMO = r'''
use xecs::World;
fn main() {
    let world = World::new();
    let a = world.create_entity().into_id();
    world.remove_entity(a);
    world.create_entities(2);
    assert_eq!(world.create_entity().into_id(), a, "the freed id is not used again");
}
'''
