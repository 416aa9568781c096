PROPERTY = 'C06'
NEEDS = 'the storage is counted (by a query), then the component that lies last is taken away, then it is counted again'
BREAKS = 'the number of components is remembered until the storage changes, but taking the last one is not noticed'
EDITS = [('src/sparse_set.rs', '''#[derive(Debug,Clone)]
pub(in crate) struct SparseSet''', '''/// The length is not known
const UNKNOWN : usize = usize::MAX;

#[derive(Debug)]
pub(in crate) struct SparseSet'''),
('src/sparse_set.rs', '''    pub (in crate) data : Vec<T>
}''', '''    pub (in crate) data : Vec<T>,
    counted : AtomicUsize
}'''),
('src/sparse_set.rs', '''            data: vec![]
''', '''            data: vec![],
            counted: AtomicUsize::new(UNKNOWN)
'''),
('src/sparse_set.rs', '''use std::num::NonZeroUsize;
''', '''use std::num::NonZeroUsize;
use std::sync::atomic::{AtomicUsize,Ordering};
''', 'first'),
('src/sparse_set.rs', '''        self.indices.clear();
''', '''        *self.counted.get_mut() = UNKNOWN;
        self.indices.clear();
'''),
('src/sparse_set.rs', '''            self.entities.push(entity);
''', '''            *self.counted.get_mut() = UNKNOWN;
            self.entities.push(entity);
'''),
('src/sparse_set.rs', '''            let index = index.get() - 1;
            self.indices.swap(self.entities[index].into()''', '''            let index = index.get() - 1;
            if index + 1 == self.entities.len() {
                // nothing has to move
                self.indices[entity] = None;
                self.entities.pop();
                return self.data.pop();
            }
            *self.counted.get_mut() = UNKNOWN;
            self.indices.swap(self.entities[index].into()'''),
('src/sparse_set.rs', '''        self.entities.len()
    }

    pub fn exist''', '''        let counted = self.counted.load(Ordering::Relaxed);
        if counted != UNKNOWN { return counted; }
        let counted = self.entities.len();
        self.counted.store(counted,Ordering::Relaxed);
        counted
    }

    pub fn exist''')]
DEMO = r'''
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>();
    let a = world.create_entity().attach(1u32).into_id();
    let b = world.create_entity().attach(2u32).into_id();
    assert_eq!(world.query::<&u32>().count(), 2);
    world.detach_component::<u32>(b);
    assert_eq!(world.query::<&u32>().count(), 1);
    world.detach_component::<u32>(a);
    assert_eq!(world.query::<&u32>().count(), 0);
}
'''
