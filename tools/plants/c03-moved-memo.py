PROPERTY = 'C03'
NEEDS = 'a component is read, then one that lies before it is taken away so that it moves, then it is read again'
BREAKS = 'the place of the component read last is remembered, but not forgotten when that component is moved into a gap'
EDITS = [('src/sparse_set.rs', '''#[derive(Debug,Clone)]
pub(in crate) struct SparseSet''', '''#[derive(Debug)]
pub(in crate) struct SparseSet'''),
('src/sparse_set.rs', '''    pub (in crate) data : Vec<T>
}''', '''    pub (in crate) data : Vec<T>,
    // the entity that was asked for last in the upper half and its index in the lower half
    last : AtomicU64
}'''),
('src/sparse_set.rs', '''            data: vec![]
''', '''            data: vec![],
            last: AtomicU64::new(u64::MAX)
'''),
('src/sparse_set.rs', '''use std::num::NonZeroUsize;
''', '''use std::num::NonZeroUsize;
use std::sync::atomic::{AtomicU64,Ordering};
''', 'first'),
('src/sparse_set.rs', '''        self.indices.clear();
''', '''        *self.last.get_mut() = u64::MAX;
        self.indices.clear();
'''),
('src/sparse_set.rs', '''        if let Some(index) = self.indices[entity] {
            let index = index.get() - 1;
            self.indices.swap''', '''        if let Some(index) = self.indices[entity] {
            let index = index.get() - 1;
            if *self.last.get_mut() >> 32 == entity as u64 {
                *self.last.get_mut() = u64::MAX;
            }
            self.indices.swap'''),
('src/sparse_set.rs', '''        let entity_a : usize = self.entities[index_a].into();
        let entity_b : usize = self.entities[index_b].into();
''', '''        *self.last.get_mut() = u64::MAX;
        let entity_a : usize = self.entities[index_a].into();
        let entity_b : usize = self.entities[index_b].into();
'''),
('src/sparse_set.rs', '''        if entity< self.indices.len() {
            if let Some(index) = self.indices[entity] {
                let index = index.get() - 1;
''', '''        let last = self.last.load(Ordering::Relaxed);
        if last >> 32 == entity as u64 {
            return self.data.get(last as u32 as usize);
        }
        if entity< self.indices.len() {
            if let Some(index) = self.indices[entity] {
                let index = index.get() - 1;
                if entity < u32::MAX as usize && index < u32::MAX as usize {
                    self.last.store((entity as u64) << 32 | index as u64,Ordering::Relaxed);
                }
''')]
DEMO = r'''
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>();
    let a = world.create_entity().attach(1u32).into_id();
    let b = world.create_entity().attach(2u32).into_id();
    let c = world.create_entity().attach(3u32).into_id();
    assert_eq!(world.components_read::<u32>().unwrap().get(c), Some(&3));
    world.detach_component::<u32>(a);
    assert_eq!(world.components_read::<u32>().unwrap().get(c), Some(&3));
    assert_eq!(world.components_read::<u32>().unwrap().get(b), Some(&2));
}
'''
