use std::any::Any;
use std::any::TypeId;
use std::cell::Cell;
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::ops::Deref;
use std::ops::DerefMut;

use simcore::mix;
use simcore::DetMap;

use crate::archetype::Archetype;
use crate::archetype::Archetypes;
use crate::bundle::Bundle;
use crate::component::Component;
use crate::component::ComponentId;
use crate::component::ComponentInfo;
use crate::component::Components;
use crate::entity::Entity;
use crate::system::Resource;

pub struct Mut<'a, T: ?Sized> {
    pub(crate) value: &'a mut T,
}
impl<'a, T: ?Sized> Deref for Mut<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.value
    }
}
impl<'a, T: ?Sized> DerefMut for Mut<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.value
    }
}
impl<'a, T: ?Sized> Mut<'a, T> {
    pub fn into_inner(self) -> &'a mut T {
        self.value
    }
}
impl<'a, T: std::fmt::Debug> std::fmt::Debug for Mut<'a, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.value.fmt(f)
    }
}

pub(crate) trait AnyColumn {
    fn remove(&mut self, index: u32) -> bool;
    fn contains(&self, index: u32) -> bool;
    fn as_any(&self) -> &dyn Any;
    fn as_any_mut(&mut self) -> &mut dyn Any;
}

pub(crate) struct Column<T> {
    data: Vec<Option<Box<UnsafeCell<T>>>>,
}

impl<T: 'static> AnyColumn for Column<T> {
    fn remove(&mut self, index: u32) -> bool {
        self.data
            .get_mut(index as usize)
            .map(|x| x.take().is_some())
            .unwrap_or(false)
    }
    fn contains(&self, index: u32) -> bool {
        matches!(self.data.get(index as usize), Some(Some(_)))
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
}

#[derive(Clone, Copy)]
struct EntitySlot {
    generation: u32,
    alive: bool,
}

#[derive(Default)]
pub struct World {
    slots: Vec<EntitySlot>,
    free: Vec<u32>,
    pub(crate) columns: DetMap<TypeId, (ComponentId, Box<dyn AnyColumn>)>,
    pub(crate) resources: DetMap<TypeId, Box<UnsafeCell<Box<dyn Any>>>>,
    components: Components,
    pub(crate) archetypes: UnsafeCell<Archetypes>,
    order: UnsafeCell<Vec<Entity>>,
    order_valid: Cell<bool>,
}

impl World {
    pub fn new() -> Self {
        Self::default()
    }

    // Entities
    pub fn reserve_entity(&mut self) -> Entity {
        if let Some(index) = self.free.pop() {
            let s = &mut self.slots[index as usize];
            s.alive = true;
            Entity {
                generation: s.generation,
                index,
            }
        } else {
            self.slots.push(EntitySlot {
                generation: 0,
                alive: true,
            });
            Entity {
                generation: 0,
                index: self.slots.len() as u32 - 1,
            }
        }
    }
    pub fn is_alive(&self, e: Entity) -> bool {
        self.slots
            .get(e.index as usize)
            .map(|s| s.alive && s.generation == e.generation)
            .unwrap_or(false)
    }
    pub fn spawn_empty(&mut self) -> EntityMut<'_> {
        let entity = self.reserve_entity();
        self.order_valid.set(false);
        EntityMut {
            world: self,
            entity,
        }
    }
    pub fn spawn<B: Bundle>(&mut self, b: B) -> EntityMut<'_> {
        let entity = self.reserve_entity();
        self.order_valid.set(false);
        b.insert_into(self, entity);
        EntityMut {
            world: self,
            entity,
        }
    }
    pub fn entity_mut(&mut self, entity: Entity) -> EntityMut<'_> {
        assert!(self.is_alive(entity), "Entity {:?} does not exist", entity);
        EntityMut {
            world: self,
            entity,
        }
    }
    pub fn despawn(&mut self, e: Entity) -> bool {
        if !self.is_alive(e) {
            return false;
        }
        self.order_valid.set(false);
        for (_, c) in self.columns.values_mut() {
            c.remove(e.index);
        }
        let s = &mut self.slots[e.index as usize];
        s.alive = false;
        s.generation += 1;
        self.free.push(e.index);
        true
    }
    /// All entities, in the order in which queries visit them.
    pub(crate) fn entities(&self) -> &[Entity] {
        if !self.order_valid.get() {
            let mut v: Vec<Entity> = self
                .slots
                .iter()
                .enumerate()
                .filter(|(_, s)| s.alive)
                .map(|(i, s)| Entity {
                    generation: s.generation,
                    index: i as u32,
                })
                .collect();
            let seed = simcore::try_sim().map(|s| s.env.entity_seed).unwrap_or(0);
            if seed != 0 {
                v.sort_by_key(|e| (mix(seed, e.index as u64), e.index));
            }
            unsafe { *self.order.get() = v };
            self.order_valid.set(true);
        }
        unsafe { &*self.order.get() }
    }

    // Components
    fn column_mut<T: Component>(&mut self) -> &mut Column<T> {
        let comps = &mut self.components;
        let (_, c) = self.columns.entry(TypeId::of::<T>()).or_insert_with(|| {
            comps.infos.push(ComponentInfo {
                name: std::any::type_name::<T>(),
            });
            (
                ComponentId(comps.infos.len() - 1),
                Box::new(Column::<T> { data: vec![] }),
            )
        });
        c.as_any_mut().downcast_mut().unwrap()
    }
    pub(crate) fn column<T: Component>(&self) -> Option<&Column<T>> {
        self.columns
            .get(&TypeId::of::<T>())
            .map(|(_, c)| c.as_any().downcast_ref().unwrap())
    }
    pub fn insert_component<T: Component>(&mut self, e: Entity, t: T) {
        assert!(
            self.is_alive(e),
            "Could not insert a component of type {} for entity {:?} because it doesn't exist in this World.",
            std::any::type_name::<T>(), e
        );
        self.order_valid.set(false);
        let col = self.column_mut::<T>();
        let i = e.index as usize;
        if col.data.len() <= i {
            col.data.resize_with(i + 1, || None);
        }
        col.data[i] = Some(Box::new(UnsafeCell::new(t)));
    }
    pub fn remove_component<T: Component>(&mut self, e: Entity) {
        assert!(self.is_alive(e));
        self.column_mut::<T>().remove(e.index);
    }
    pub(crate) fn component_ptr<T: Component>(&self, e: Entity) -> Option<*mut T> {
        self.column::<T>()?
            .data
            .get(e.index as usize)?
            .as_ref()
            .map(|x| x.get())
    }
    pub fn get<T: Component>(&self, e: Entity) -> Option<&T> {
        if !self.is_alive(e) {
            return None;
        }
        self.component_ptr::<T>(e).map(|p| unsafe { &*p })
    }
    pub fn get_mut<T: Component>(&mut self, e: Entity) -> Option<Mut<'_, T>> {
        if !self.is_alive(e) {
            return None;
        }
        self.component_ptr::<T>(e).map(|p| Mut {
            value: unsafe { &mut *p },
        })
    }
    pub fn resource_scope<T: Resource, U>(&mut self, f: impl FnOnce(&mut World, Mut<T>) -> U) -> U {
        let mut t = self.remove_resource::<T>().expect("resource does not exist");
        let u = f(self, Mut { value: &mut t });
        self.insert_resource(t);
        u
    }
    pub fn send_event<E: crate::event::Event>(&mut self, e: E) {
        self.resource_mut::<crate::event::Events<E>>().send(e)
    }
    pub fn query<Q: crate::query::WorldQuery + 'static>(&mut self) -> crate::query::QueryState<Q> {
        crate::query::QueryState::new()
    }
    pub fn query_filtered<Q: crate::query::WorldQuery + 'static, F: crate::query::WorldQuery + 'static>(
        &mut self,
    ) -> crate::query::QueryState<Q, F> {
        crate::query::QueryState::new()
    }
    pub(crate) fn components(&self) -> &Components {
        &self.components
    }
    pub(crate) fn compute_archetypes(&self) -> &Archetypes {
        let mut map: BTreeMap<Vec<ComponentId>, usize> = BTreeMap::new();
        for e in self.entities() {
            let mut cs: Vec<ComponentId> = self
                .columns
                .values()
                .filter(|(_, c)| c.contains(e.index))
                .map(|(id, _)| *id)
                .collect();
            cs.sort();
            *map.entry(cs).or_insert(0) += 1;
        }
        let a = Archetypes {
            list: map
                .into_iter()
                .map(|(comps, len)| Archetype { comps, len })
                .collect(),
        };
        unsafe {
            *self.archetypes.get() = a;
            &*self.archetypes.get()
        }
    }

    // Resources
    pub(crate) fn resource_ptr<T: 'static>(&self) -> Option<*mut T> {
        let b = self.resources.get(&TypeId::of::<T>())?;
        let b: &mut Box<dyn Any> = unsafe { &mut *b.get() };
        Some(b.downcast_mut::<T>().unwrap() as *mut T)
    }
    pub fn insert_non_send_resource<T: 'static>(&mut self, t: T) {
        self.resources
            .insert(TypeId::of::<T>(), Box::new(UnsafeCell::new(Box::new(t))));
    }
    pub fn insert_resource<T: Resource>(&mut self, t: T) {
        self.insert_non_send_resource(t)
    }
    pub fn init_resource<T: Resource + Default>(&mut self) {
        if !self.contains_resource::<T>() {
            self.insert_resource(T::default());
        }
    }
    pub fn remove_resource<T: Resource>(&mut self) -> Option<T> {
        let b = self.resources.remove(&TypeId::of::<T>())?;
        Some(*b.into_inner().downcast::<T>().unwrap())
    }
    pub fn contains_resource<T: Resource>(&self) -> bool {
        self.resource_ptr::<T>().is_some()
    }
    pub fn get_resource<T: Resource>(&self) -> Option<&T> {
        self.resource_ptr::<T>().map(|p| unsafe { &*p })
    }
    pub fn get_resource_mut<T: Resource>(&mut self) -> Option<Mut<'_, T>> {
        self.resource_ptr::<T>().map(|p| Mut {
            value: unsafe { &mut *p },
        })
    }
    pub fn get_non_send_resource<T: 'static>(&self) -> Option<&T> {
        self.resource_ptr::<T>().map(|p| unsafe { &*p })
    }
    pub fn resource<T: Resource>(&self) -> &T {
        self.get_resource().unwrap()
    }
    pub fn resource_mut<T: Resource>(&mut self) -> Mut<'_, T> {
        self.get_resource_mut().unwrap()
    }
    pub fn non_send_resource_mut<T: 'static>(&mut self) -> Mut<'_, T> {
        self.resource_ptr::<T>()
            .map(|p| Mut {
                value: unsafe { &mut *p },
            })
            .unwrap()
    }
    pub fn get_resource_or_insert_with<T: Resource>(&mut self, f: impl FnOnce() -> T) -> Mut<'_, T> {
        if !self.contains_resource::<T>() {
            self.insert_resource(f());
        }
        self.resource_mut()
    }
}

pub struct EntityMut<'w> {
    world: &'w mut World,
    entity: Entity,
}
impl<'w> EntityMut<'w> {
    pub fn id(&self) -> Entity {
        self.entity
    }
    pub fn get<T: Component>(&self) -> Option<&T> {
        self.world.get::<T>(self.entity)
    }
    pub fn contains<T: Component>(&self) -> bool {
        self.get::<T>().is_some()
    }
    pub fn insert<B: Bundle>(&mut self, b: B) -> &mut Self {
        b.insert_into(self.world, self.entity);
        self
    }
    pub fn remove<B: Bundle>(&mut self) -> &mut Self {
        B::remove_from(self.world, self.entity);
        self
    }
    pub fn despawn(self) {
        self.world.despawn(self.entity);
    }
}
