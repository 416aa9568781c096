PROPERTY = 'C01'
NEEDS = 'asking for an id that differs from a live one by a multiple of 2^32'
BREAKS = 'existence is decided on the low 32 bits of the id, so ids that were never handed out exist'
EDITS = [('src/world.rs', '''        let entity_manager = self.entity_manager.read();
        entity_manager.has(entity_id)
''', '''        let entity_manager = self.entity_manager.read();
        // the upper half of the word is never used
        EntityId::new(entity_id.get() as u32 as usize)
            .map_or(false,|entity_id|entity_manager.has(entity_id))
''')]
DEMO = r'''
use xecs::{EntityId, World};
fn main() {
    let world = World::new();
    let id = world.create_entity().into_id();
    assert!(world.exist(id));
    assert!(!world.exist(EntityId::new(id.get() + (1 << 32)).unwrap()));
    assert!(!world.exist(EntityId::new(id.get() + (7 << 40)).unwrap()));
}
'''
