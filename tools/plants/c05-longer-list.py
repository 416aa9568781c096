PROPERTY = 'C05'
NEEDS = 'a list that is longer than the block'
BREAKS = 'the check of the length is weakened at both of the sites that make it, so a list of the wrong length is accepted'
EDITS = [('src/entity.rs', '''        assert_eq!(components.len(),count);
''', '''        assert!(components.len() >= count);
'''), ('src/sparse_set.rs', '''        assert_eq!(entities.len(),data.len());
''', '''        assert!(data.len() >= entities.len());
''')]
DEMO = r'''
use std::panic::{catch_unwind, AssertUnwindSafe};
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>();
    let refused = catch_unwind(AssertUnwindSafe(|| { world.create_entities(2).attach(vec![1u32, 2, 3]); })).is_err();
    let refused2 = catch_unwind(AssertUnwindSafe(|| { world.create_entities(2).attach(vec![1u32]); })).is_err();
    assert!(refused && refused2, "a list of the wrong length is accepted");
}
'''
