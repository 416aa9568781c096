PROPERTY = 'C08'
NEEDS = 'two excluded entities in a row, stepping with ids, Without on the right'
BREAKS = 'at most one excluded entity is skipped in a row, the second one is yielded'
EDITS = [('src/query/without.rs', '''        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let None = self.iter_b.from_id(id) {
                return Some((id,a));
            }
        }
        None
''', '''        let (id,a) = self.iter_a.next_with_id()?;
        if let None = self.iter_b.from_id(id) {
            return Some((id,a));
        }
        self.iter_a.next_with_id()
''')]
DEMO = r'''
use xecs::query::{WithId, Without};
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>().register::<char>();
    world.create_entity().attach(1u32).attach('a');
    world.create_entity().attach(2u32).attach('b');
    world.create_entity().attach(3u32);
    let got = world.query::<(&u32, Without<&char>)>().with_id().map(|(_, a)| *a).collect::<Vec<_>>();
    assert_eq!(got, [3]);
}
'''
