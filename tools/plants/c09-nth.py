PROPERTY = 'C09'
NEEDS = 'nth() past the end of a query for one component, then its length or another step'
BREAKS = 'nth() moves the cursor past the end, so the remaining length is wrong (it underflows)'
EDITS = [('src/query/mod.rs', '''    fn size_hint(&self) -> (usize, Option<usize>) {
        let rem = self.borrow.count() - self.index;
        (rem,Some(rem))
    }
}
impl<'a,T : Component> ExactSizeIterator for IterRef<'a,T>{}
''', '''    fn size_hint(&self) -> (usize, Option<usize>) {
        let rem = self.borrow.count().wrapping_sub(self.index);
        (rem,Some(rem))
    }

    fn nth(&mut self,n : usize) -> Option<Self::Item> {
        // no need to look at the components in between
        self.index += n;
        self.next()
    }
}
impl<'a,T : Component> ExactSizeIterator for IterRef<'a,T>{}
''')]
DEMO = r'''
use xecs::World;
fn main() {
    let mut world = World::new();
    world.register::<u32>();
    world.create_entities(3).attach(vec![1u32, 2, 3]);
    let mut query = world.query::<&u32>();
    assert_eq!(query.nth(1).copied(), Some(2));
    assert_eq!(query.size_hint(), (1, Some(1)));
    assert_eq!(query.nth(4).copied(), None);
    assert_eq!(query.size_hint(), (0, Some(0)));
    assert_eq!(query.next().copied(), None);
}
'''
