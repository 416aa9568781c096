PROPERTY = 'C07'
NEEDS = 'a query of five parts over an entity that has the first four but not the fifth, followed by a match'
BREAKS = 'stepping with ids ends at the first entity that lacks only the last part'
EDITS = [('src/query/with.rs', '''                        if let Some(e) = self.iter_e.from_id(id) {
                            return Some((id,(a,b,c,d,e)))
                        }
''', '''                        let e = self.iter_e.from_id(id)?;
                        return Some((id,(a,b,c,d,e)))
''')]
DEMO = r'''
use xecs::query::WithId;
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u8>().register::<u16>().register::<u32>().register::<u64>().register::<i8>();
    world.create_entity().attach(1u8).attach(1u16).attach(1u32).attach(1u64);
    world.create_entity().attach(2u8).attach(2u16).attach(2u32).attach(2u64).attach(2i8);
    let n = world.query::<(&u8, &u16, &u32, &u64, &i8)>().with_id().count();
    assert_eq!(n, 1);
}
'''
