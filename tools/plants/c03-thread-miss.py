PROPERTY = 'C03'
NEEDS = 'a thread finds that an entity lacks a component, another thread attaches it, the first one asks again'
BREAKS = 'every thread remembers the last component it did not find, only an attach in the same thread makes it forget'
EDITS = [('src/sparse_set.rs', '''#[derive(Debug,Clone)]
pub(in crate) struct SparseSet''', '''std::thread_local! {
    /// The storage and entity that was asked for last in vain
    static MISSED : std::cell::Cell<(usize,usize)> = std::cell::Cell::new((0,0));
}
static STORAGES : std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);

#[derive(Debug,Clone)]
pub(in crate) struct SparseSet'''),
('src/sparse_set.rs', '''    pub (in crate) data : Vec<T>
}''', '''    pub (in crate) data : Vec<T>,
    key : usize
}'''),
('src/sparse_set.rs', '''            data: vec![]
''', '''            data: vec![],
            key: STORAGES.fetch_add(1,std::sync::atomic::Ordering::Relaxed)
'''),
('src/sparse_set.rs', '''            self.entities.push(entity);
''', '''            MISSED.with(|missed|missed.set((0,0)));
            self.entities.push(entity);
'''),
('src/sparse_set.rs', '''        if entity < self.indices.len()  {
            self.indices[entity].is_some()
        }else{
            false
        }
''', '''        if MISSED.with(|missed|missed.get()) == (self.key,entity) {
            return false;
        }
        if entity < self.indices.len() && self.indices[entity].is_some() {
            return true;
        }
        MISSED.with(|missed|missed.set((self.key,entity)));
        false
''')]
DEMO = r'''
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>();
    let a = world.create_entity().into_id();
    assert!(world.entity_component_read::<u32>(a).is_none());
    std::thread::scope(|s| {
        s.spawn(|| world.attach_component(a, 5u32));
    });
    assert!(world.entity_component_read::<u32>(a).is_some_and(|c| *c == 5));
}
'''
