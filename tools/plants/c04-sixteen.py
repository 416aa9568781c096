PROPERTY = "C04"
NEEDS = "an entity with components of more than sixteen types, removed: only the first sixteen storages are cleaned"
BREAKS = "World::remove_entity keeps the storages in a fixed number of slots, so that components of further types outlive the entity and show up again when the id is recycled"
EDITS = [("src/world.rs", """            if need_remove {
                storages.push(storage.write());
            }""", """            if need_remove && storages.len() < 16 {
                storages.push(storage.write());
            }""")]
DEMO = r'''
use xecs::World;
struct F<const N: usize>(u32);
macro_rules! each { ($w:ident, $id:ident, $do:ident, $($n:literal)*) => { $($do!($w, $id, $n);)* } }
macro_rules! reg { ($w:ident, $id:ident, $n:literal) => { $w.register::<F<$n>>(); } }
macro_rules! put { ($w:ident, $id:ident, $n:literal) => { $w.attach_component($id, F::<$n>($n)); } }
macro_rules! gone { ($w:ident, $id:ident, $n:literal) => { assert!($w.entity_component_read::<F<$n>>($id).is_none(), "component {} outlives its entity", $n); } }
fn main() {
    let mut w = World::new();
    let none = ();
    each!(w, none, reg, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19);
    let id = w.create_entity().into_id();
    each!(w, id, put, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19);
    w.remove_entity(id);
    each!(w, id, gone, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19);
}
'''
