PROPERTY = 'C20'
NEEDS = 'a query made while no entity has the component, and an attach in another thread before it is stepped'
BREAKS = 'a query over an empty storage does not lock it, so what is attached meanwhile is handed out without protection'
EDITS = [('src/query/mod.rs', '''    borrow : RwLockReadGuard<'a,Box<dyn ComponentStorage>>
}
''', '''    // nothing has to be protected as long as there is nothing
    #[allow(unused)]
    borrow : Option<RwLockReadGuard<'a,Box<dyn ComponentStorage>>>
}
''', 'first'), ('src/query/mod.rs', '''        let ptr = &*sparse_set;
        Box::new(IterRef{
            index : 0,
            sparse_set : ptr,
            borrow : storage
        })
''', '''        let ptr = &*sparse_set as *const SparseSet<EntityId,T>;
        let borrow = if storage.is_empty() { None } else { Some(storage) };
        Box::new(IterRef{
            index : 0,
            sparse_set : ptr,
            borrow
        })
''', 'first'), ('src/query/mod.rs', '''        if self.index < self.borrow.count() {
            // Safety:
            // Safe here, because self.sparse_set is 
            // a pointer from borrow,
            // This pointer is valid now.
            let sparse_set = unsafe { &*self.sparse_set };
            // Safety:
            // Safe here, because we checked before.
            let data''', '''        if self.index < unsafe { &*self.sparse_set }.len() {
            // Safety:
            // Safe here, because self.sparse_set is 
            // a pointer from borrow,
            // This pointer is valid now.
            let sparse_set = unsafe { &*self.sparse_set };
            // Safety:
            // Safe here, because we checked before.
            let data''', 'first'), ('src/query/mod.rs', '''        let rem = self.borrow.count() - self.index;
''', '''        let rem = unsafe { &*self.sparse_set }.len() - self.index;
''', 'first'), ('src/query/mod.rs', '''        if self.index < self.borrow.count() {
            // Safety:
            // Safe here, because self.sparse_set is 
            // a pointer from borrow,
            // This pointer is valid now.
            let sparse_set = unsafe { &*self.sparse_set };
            // Safety:
            // Safe here, because we have already checked.
            let id''', '''        if self.index < unsafe { &*self.sparse_set }.len() {
            // Safety:
            // Safe here, because self.sparse_set is 
            // a pointer from borrow,
            // This pointer is valid now.
            let sparse_set = unsafe { &*self.sparse_set };
            // Safety:
            // Safe here, because we have already checked.
            let id''', 'first')]
DEMO = r'''
use std::time::Duration;
use std::sync::mpsc::channel;
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>();
    let id = world.create_entity().into_id();
    let world = &world;
    let early = std::thread::scope(|s| {
        let mut q = world.query::<&u32>();
        let (tx, rx) = channel();
        s.spawn(move || {
            world.attach_component(id, 7u32);
            let _ = tx.send(());
        });
        let early = rx.recv_timeout(Duration::from_secs(2)).is_ok();
        let x = q.next();
        early || x.is_some()
    });
    if early {
        eprintln!("a component was attached while a query over its type was open");
        std::process::exit(1);
    }
}
'''
