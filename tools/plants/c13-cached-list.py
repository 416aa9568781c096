PROPERTY = 'C13'
NEEDS = 'a component is attached or detached before a second group of it is made, in which it is the second component'
BREAKS = 'the groups of a component are listed once, a group made later is only added to the list of its first component'
EDITS = [('src/world.rs', '''    groups: Vec<RwLock<Group>>,
''', '''    groups: Vec<RwLock<Group>>,
    // which groups a component is in, filled when it is asked for
    groups_of: RwLock<HashMap<TypeId,Vec<usize>>>,
'''), ('src/world.rs', '''            groups: Default::default(),
''', '''            groups: Default::default(),
            groups_of: Default::default(),
'''), ('src/world.rs', '''        self.groups.push(RwLock::new(group));
''', '''        self.groups_of.get_mut().remove(&type_a);
        self.groups.push(RwLock::new(group));
'''), ('src/world.rs', '''        let mut groups = vec![];
        for group in &self.groups {
            let need_add = {
                let group = group.read();
                let (type_id_a,type_id_b) = group.types();
                type_id_a == type_id || type_id_b == type_id
            };
            if need_add {
                groups.push(group.write())
            }
        }
        groups
''', '''        let known = self.groups_of.read().get(&type_id).cloned();
        let indices = match known {
            Some(indices) => indices,
            None => {
                let indices = (0..self.groups.len())
                    .filter(|index| {
                        let (type_id_a,type_id_b) = self.groups[*index].read().types();
                        type_id_a == type_id || type_id_b == type_id
                    })
                    .collect::<Vec<_>>();
                self.groups_of.write().insert(type_id,indices.clone());
                indices
            }
        };
        indices.into_iter().map(|index|self.groups[index].write()).collect()
''')]
DEMO = r'''
use xecs::group::*;
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>().register::<char>().register::<u8>();
    world.make_group(non_owning::<u32, char>());
    let a = world.create_entity().attach(1u32).into_id();
    world.make_group(non_owning::<char, u32>());
    world.make_group(non_owning::<u8, u32>());
    world.attach_component(a, 1u8);
    let b = world.create_entity().attach(2u8).attach(2u32).into_id();
    assert_eq!(world.query::<NonOwning<&u8, &u32>>().count(), 2);
    world.detach_component::<u32>(b);
    assert_eq!(world.query::<NonOwning<&u8, &u32>>().count(), 1);
}
'''
