use std::fmt;
use std::marker::PhantomData;

use crate::component::Component;
use crate::entity::Entity;
use crate::world::Mut;
use crate::world::World;

/// # Safety
/// internal
pub unsafe trait WorldQuery {
    type Item<'w>;
    type ReadOnly: WorldQuery;
    fn matches(world: &World, e: Entity) -> bool;
    unsafe fn fetch<'w>(world: &'w World, e: Entity) -> Self::Item<'w>;
}

pub type ROItem<'w, Q> = <<Q as WorldQuery>::ReadOnly as WorldQuery>::Item<'w>;

unsafe impl<T: Component> WorldQuery for &T {
    type Item<'w> = &'w T;
    type ReadOnly = Self;
    fn matches(world: &World, e: Entity) -> bool {
        world.component_ptr::<T>(e).is_some()
    }
    unsafe fn fetch<'w>(world: &'w World, e: Entity) -> &'w T {
        unsafe { &*world.component_ptr::<T>(e).unwrap() }
    }
}
unsafe impl<'a, T: Component> WorldQuery for &'a mut T {
    type Item<'w> = Mut<'w, T>;
    type ReadOnly = &'a T;
    fn matches(world: &World, e: Entity) -> bool {
        world.component_ptr::<T>(e).is_some()
    }
    unsafe fn fetch<'w>(world: &'w World, e: Entity) -> Mut<'w, T> {
        Mut {
            value: unsafe { &mut *world.component_ptr::<T>(e).unwrap() },
        }
    }
}
unsafe impl WorldQuery for Entity {
    type Item<'w> = Entity;
    type ReadOnly = Self;
    fn matches(_: &World, _: Entity) -> bool {
        true
    }
    unsafe fn fetch<'w>(_: &'w World, e: Entity) -> Entity {
        e
    }
}
unsafe impl<Q: WorldQuery> WorldQuery for Option<Q> {
    type Item<'w> = Option<Q::Item<'w>>;
    type ReadOnly = Option<Q::ReadOnly>;
    fn matches(_: &World, _: Entity) -> bool {
        true
    }
    unsafe fn fetch<'w>(world: &'w World, e: Entity) -> Option<Q::Item<'w>> {
        if Q::matches(world, e) {
            Some(unsafe { Q::fetch(world, e) })
        } else {
            None
        }
    }
}
pub struct With<T>(PhantomData<T>);
pub struct Without<T>(PhantomData<T>);
unsafe impl<T: Component> WorldQuery for With<T> {
    type Item<'w> = ();
    type ReadOnly = Self;
    fn matches(world: &World, e: Entity) -> bool {
        world.component_ptr::<T>(e).is_some()
    }
    unsafe fn fetch<'w>(_: &'w World, _: Entity) {}
}
unsafe impl<T: Component> WorldQuery for Without<T> {
    type Item<'w> = ();
    type ReadOnly = Self;
    fn matches(world: &World, e: Entity) -> bool {
        world.component_ptr::<T>(e).is_none()
    }
    unsafe fn fetch<'w>(_: &'w World, _: Entity) {}
}
macro_rules! tuple_query {
    ($($t:ident),*) => {
        unsafe impl<$($t: WorldQuery),*> WorldQuery for ($($t,)*) {
            type Item<'w> = ($($t::Item<'w>,)*);
            type ReadOnly = ($($t::ReadOnly,)*);
            #[allow(unused_variables, unused_unsafe)]
            fn matches(world: &World, e: Entity) -> bool {
                true $(&& $t::matches(world, e))*
            }
            #[allow(unused_variables, unused_unsafe)]
            unsafe fn fetch<'w>(world: &'w World, e: Entity) -> Self::Item<'w> {
                unsafe { ($($t::fetch(world, e),)*) }
            }
        }
    };
}
tuple_query!();
tuple_query!(A);
tuple_query!(A, B);
tuple_query!(A, B, C);
tuple_query!(A, B, C, D);
tuple_query!(A, B, C, D, E);
tuple_query!(A, B, C, D, E, F);
tuple_query!(A, B, C, D, E, F, G);
tuple_query!(A, B, C, D, E, F, G, H);
tuple_query!(A, B, C, D, E, F, G, H, I);
tuple_query!(A, B, C, D, E, F, G, H, I, J);

#[derive(Debug)]
pub enum QueryEntityError {
    QueryDoesNotMatch(Entity),
    NoSuchEntity(Entity),
}
impl fmt::Display for QueryEntityError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for QueryEntityError {}
#[derive(Debug)]
pub struct QuerySingleError(pub usize);

pub struct Query<'w, 's, Q: WorldQuery, F: WorldQuery = ()> {
    pub(crate) world: &'w World,
    pub(crate) _s: PhantomData<(&'s (), fn() -> (Q, F))>,
}

impl<'w, 's, Q: WorldQuery, F: WorldQuery> Query<'w, 's, Q, F> {
    fn found(&self) -> impl Iterator<Item = Entity> + 'w {
        let world = self.world;
        world
            .entities()
            .iter()
            .copied()
            .filter(move |e| Q::matches(world, *e) && F::matches(world, *e))
    }
    fn check(&self, e: Entity) -> Result<(), QueryEntityError> {
        if !self.world.is_alive(e) {
            Err(QueryEntityError::NoSuchEntity(e))
        } else if !(Q::matches(self.world, e) && F::matches(self.world, e)) {
            Err(QueryEntityError::QueryDoesNotMatch(e))
        } else {
            Ok(())
        }
    }
    pub fn iter(&self) -> QueryIter<'_, ROItem<'_, Q>> {
        let world = self.world;
        QueryIter {
            it: Box::new(
                self.found()
                    .map(move |e| unsafe { <Q::ReadOnly as WorldQuery>::fetch(world, e) }),
            ),
        }
    }
    pub fn iter_mut(&mut self) -> QueryIter<'_, Q::Item<'_>> {
        let world = self.world;
        QueryIter {
            it: Box::new(self.found().map(move |e| unsafe { Q::fetch(world, e) })),
        }
    }
    pub fn get(&self, e: Entity) -> Result<ROItem<'_, Q>, QueryEntityError> {
        self.check(e)?;
        Ok(unsafe { <Q::ReadOnly as WorldQuery>::fetch(self.world, e) })
    }
    pub fn get_mut(&mut self, e: Entity) -> Result<Q::Item<'_>, QueryEntityError> {
        self.check(e)?;
        Ok(unsafe { Q::fetch(self.world, e) })
    }
    pub fn contains(&self, e: Entity) -> bool {
        self.check(e).is_ok()
    }
    pub fn is_empty(&self) -> bool {
        self.found().next().is_none()
    }
    pub fn get_single(&self) -> Result<ROItem<'_, Q>, QuerySingleError> {
        let v: Vec<Entity> = self.found().collect();
        if v.len() == 1 {
            Ok(unsafe { <Q::ReadOnly as WorldQuery>::fetch(self.world, v[0]) })
        } else {
            Err(QuerySingleError(v.len()))
        }
    }
    pub fn single(&self) -> ROItem<'_, Q> {
        self.get_single().unwrap()
    }
    pub fn get_single_mut(&mut self) -> Result<Q::Item<'_>, QuerySingleError> {
        let v: Vec<Entity> = self.found().collect();
        if v.len() == 1 {
            Ok(unsafe { Q::fetch(self.world, v[0]) })
        } else {
            Err(QuerySingleError(v.len()))
        }
    }
    pub fn single_mut(&mut self) -> Q::Item<'_> {
        self.get_single_mut().unwrap()
    }
    pub fn for_each<'a>(&'a self, f: impl FnMut(ROItem<'a, Q>)) {
        self.iter().for_each(f)
    }
    pub fn for_each_mut<'a>(&'a mut self, f: impl FnMut(Q::Item<'a>)) {
        self.iter_mut().for_each(f)
    }
    pub fn get_component<T: crate::component::Component>(&self, e: Entity) -> Result<&T, QueryEntityError> {
        self.check(e)?;
        self.world.get::<T>(e).ok_or(QueryEntityError::QueryDoesNotMatch(e))
    }
}

pub struct QueryIter<'a, T> {
    it: Box<dyn Iterator<Item = T> + 'a>,
}
impl<'a, T> Iterator for QueryIter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.it.next()
    }
}

impl<'w, 's, 'a, Q: WorldQuery, F: WorldQuery> IntoIterator for &'a Query<'w, 's, Q, F> {
    type Item = ROItem<'a, Q>;
    type IntoIter = QueryIter<'a, ROItem<'a, Q>>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'w, 's, 'a, Q: WorldQuery, F: WorldQuery> IntoIterator for &'a mut Query<'w, 's, Q, F> {
    type Item = Q::Item<'a>;
    type IntoIter = QueryIter<'a, Q::Item<'a>>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}

pub struct QueryState<Q: WorldQuery, F: WorldQuery = ()>(PhantomData<fn() -> (Q, F)>);
impl<Q: WorldQuery, F: WorldQuery> QueryState<Q, F> {
    pub(crate) fn new() -> Self {
        QueryState(PhantomData)
    }
    pub fn iter<'w>(&mut self, world: &'w World) -> std::vec::IntoIter<ROItem<'w, Q>> {
        let v: Vec<Entity> = world
            .entities()
            .iter()
            .copied()
            .filter(|e| Q::matches(world, *e) && F::matches(world, *e))
            .collect();
        v.into_iter()
            .map(move |e| unsafe { <Q::ReadOnly as WorldQuery>::fetch(world, e) })
            .collect::<Vec<_>>()
            .into_iter()
    }
    pub fn single<'w>(&mut self, world: &'w World) -> ROItem<'w, Q> {
        let mut it = self.iter(world);
        let r = it.next().unwrap();
        assert!(it.next().is_none());
        r
    }
}
