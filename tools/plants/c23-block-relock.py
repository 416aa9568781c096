PROPERTY = "C23"
NEEDS = "a bulk attach that has to wait for a storage, and a removal of one of its entities just then"
BREAKS = "Entities::attach lets the entity manager go while it works on the storage and takes it again afterwards, so that the block is not pinned meanwhile"
EDITS = [("src/entity.rs", """        let mut groups = self.world.groups(type_id);
        let mut storage = self.world.raw_storage_write(type_id)
            .expect("Entities:Cannot attach component because components has not been registered.");
""", """        let Entities { world, ids: range, borrow_entity_manager } = self;
        // the storages may be busy for long, do not keep others from creating entities
        drop(borrow_entity_manager);
        let mut groups = world.groups(type_id);
        let mut storage = world.raw_storage_write(type_id)
            .expect("Entities:Cannot attach component because components has not been registered.");
"""),
("src/entity.rs","""        let ids = (self.ids.start.get()..self.ids.end.get())
            // Safety:""","""        let ids = (range.start.get()..range.end.get())
            // Safety:"""),
("src/entity.rs","self.world.raw_storage","world.raw_storage",6),
("src/entity.rs","""        drop(groups);
        drop(replaced);
        self
""","""        drop(groups);
        drop(replaced);
        world.block(range)
"""),
("src/world.rs","""    /// Remove entity and its components.
    pub fn remove_entity""","""    /// The entities of a block that is there already
    pub(in crate) fn block(&self, ids : std::ops::Range<EntityId>) -> Entities<'_> {
        Entities::new(self,ids,self.entity_manager.read())
    }

    /// Remove entity and its components.
    pub fn remove_entity"""),
]
DEMO = r'''
use std::time::Duration;
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>();
    world.register::<u64>();
    let world = &world;
    std::thread::scope(|s| {
        let busy = world.components_read::<u32>().unwrap();
        let t = s.spawn(|| {
            let block = world.create_entities(2).attach::<u32, _>(vec![1, 2]);
            block.attach::<u64, _>(vec![1, 2]).into_ids()
        });
        std::thread::sleep(Duration::from_millis(200));
        // waits until the block is released
        s.spawn(|| world.remove_entity(xecs::EntityId::new(1).unwrap()));
        std::thread::sleep(Duration::from_millis(200));
        drop(busy);
        let ids = t.join().unwrap();
        assert_eq!(ids.start.get(), 1);
    });
    assert!(!world.exist(xecs::EntityId::new(1).unwrap()));
    assert_eq!(world.components_read::<u64>().unwrap().data(), [2], "a removed entity has components");
}
'''
