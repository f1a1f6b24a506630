use std::marker::PhantomData;
use std::ops::Deref;
use std::ops::DerefMut;

pub use bevy_ecs_macros::Resource;

use crate::archetype::Archetypes;
use crate::bundle::Bundle;
use crate::component::Components;
use crate::entity::Entity;
use crate::event::Event;
use crate::event::EventReader;
use crate::event::EventWriter;
use crate::event::Events;
use crate::query::Query;
use crate::query::WorldQuery;
pub use crate::schedule::AsSystemLabel;
use crate::world::World;

pub trait Resource: Send + Sync + 'static {}

#[derive(Clone, Copy)]
pub struct WorldPtr<'w>(*mut World, PhantomData<&'w ()>);
impl<'w> Deref for WorldPtr<'w> {
    type Target = World;
    fn deref(&self) -> &World {
        unsafe { &*self.0 }
    }
}

pub trait SystemParam: Sized {
    type State: 'static;
    type Item<'w, 's>: SystemParam<State = Self::State>;
    fn init(world: &mut World) -> Self::State;
    fn get<'w, 's>(state: &'s mut Self::State, world: WorldPtr<'w>, name: &str) -> Self::Item<'w, 's>;
    fn apply(_: &mut Self::State, _: &mut World) {}
}
pub type SystemParamItem<'w, 's, P> = <P as SystemParam>::Item<'w, 's>;

macro_rules! res_type {
    ($name:ident, $bound:path) => {
        pub struct $name<'w, T: ?Sized> {
            value: &'w T,
        }
        impl<'w, T: ?Sized> Deref for $name<'w, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.value
            }
        }
        impl<'w, T> $name<'w, T> {
            pub fn into_inner(self) -> &'w T {
                self.value
            }
        }
        impl<'a, T: $bound + 'static> SystemParam for $name<'a, T> {
            type State = ();
            type Item<'w, 's> = $name<'w, T>;
            fn init(_: &mut World) {}
            fn get<'w, 's>(_: &'s mut (), world: WorldPtr<'w>, name: &str) -> $name<'w, T> {
                let p = world.resource_ptr::<T>();
                $name {
                    value: unsafe {
                        &*p.unwrap_or_else(|| {
                            panic!(
                                "Resource requested by {} does not exist: {}",
                                name,
                                std::any::type_name::<T>()
                            )
                        })
                    },
                }
            }
        }
        impl<'a, T: $bound + 'static> SystemParam for Option<$name<'a, T>> {
            type State = ();
            type Item<'w, 's> = Option<$name<'w, T>>;
            fn init(_: &mut World) {}
            fn get<'w, 's>(_: &'s mut (), world: WorldPtr<'w>, _: &str) -> Option<$name<'w, T>> {
                let p = world.resource_ptr::<T>();
                p.map(|p| $name {
                    value: unsafe { &*p },
                })
            }
        }
    };
}
macro_rules! res_mut_type {
    ($name:ident, $bound:path) => {
        pub struct $name<'w, T: ?Sized> {
            value: &'w mut T,
        }
        impl<'w, T: ?Sized> Deref for $name<'w, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.value
            }
        }
        impl<'w, T: ?Sized> DerefMut for $name<'w, T> {
            fn deref_mut(&mut self) -> &mut T {
                self.value
            }
        }
        impl<'w, T> $name<'w, T> {
            pub fn into_inner(self) -> &'w mut T {
                self.value
            }
        }
        impl<'a, T: $bound + 'static> SystemParam for $name<'a, T> {
            type State = ();
            type Item<'w, 's> = $name<'w, T>;
            fn init(_: &mut World) {}
            fn get<'w, 's>(_: &'s mut (), world: WorldPtr<'w>, name: &str) -> $name<'w, T> {
                let p = world.resource_ptr::<T>();
                $name {
                    value: unsafe {
                        &mut *p.unwrap_or_else(|| {
                            panic!(
                                "Resource requested by {} does not exist: {}",
                                name,
                                std::any::type_name::<T>()
                            )
                        })
                    },
                }
            }
        }
        impl<'a, T: $bound + 'static> SystemParam for Option<$name<'a, T>> {
            type State = ();
            type Item<'w, 's> = Option<$name<'w, T>>;
            fn init(_: &mut World) {}
            fn get<'w, 's>(_: &'s mut (), world: WorldPtr<'w>, _: &str) -> Option<$name<'w, T>> {
                let p = world.resource_ptr::<T>();
                p.map(|p| $name {
                    value: unsafe { &mut *p },
                })
            }
        }
    };
}
pub trait AnyBound {}
impl<T: ?Sized> AnyBound for T {}
res_type!(Res, Resource);
res_type!(NonSend, AnyBound);
res_mut_type!(ResMut, Resource);
res_mut_type!(NonSendMut, AnyBound);

pub struct Local<'s, T: Default + 'static>(&'s mut T);
impl<'s, T: Default + 'static> Deref for Local<'s, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
impl<'s, T: Default + 'static> DerefMut for Local<'s, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0
    }
}
impl<'a, T: Default + 'static> SystemParam for Local<'a, T> {
    type State = T;
    type Item<'w, 's> = Local<'s, T>;
    fn init(_: &mut World) -> T {
        T::default()
    }
    fn get<'w, 's>(s: &'s mut T, _: WorldPtr<'w>, _: &str) -> Local<'s, T> {
        Local(s)
    }
}

impl<'a, 'b, Q: WorldQuery + 'static, F: WorldQuery + 'static> SystemParam for Query<'a, 'b, Q, F> {
    type State = ();
    type Item<'w, 's> = Query<'w, 's, Q, F>;
    fn init(_: &mut World) {}
    fn get<'w, 's>(_: &'s mut (), world: WorldPtr<'w>, _: &str) -> Query<'w, 's, Q, F> {
        Query {
            world: unsafe { &*world.0 },
            _s: PhantomData,
        }
    }
}

impl<'a, 'b, E: Event> SystemParam for EventWriter<'a, 'b, E> {
    type State = ();
    type Item<'w, 's> = EventWriter<'w, 's, E>;
    fn init(_: &mut World) {}
    fn get<'w, 's>(_: &'s mut (), world: WorldPtr<'w>, name: &str) -> EventWriter<'w, 's, E> {
        let p = world.resource_ptr::<Events<E>>()
            .unwrap_or_else(|| panic!("event of {} not registered: {}", name, std::any::type_name::<E>()));
        EventWriter {
            events: unsafe { &mut *p },
            _s: PhantomData,
        }
    }
}
impl<'a, 'b, E: Event> SystemParam for EventReader<'a, 'b, E> {
    type State = u64;
    type Item<'w, 's> = EventReader<'w, 's, E>;
    fn init(_: &mut World) -> u64 {
        0
    }
    fn get<'w, 's>(seen: &'s mut u64, world: WorldPtr<'w>, name: &str) -> EventReader<'w, 's, E> {
        let p = world.resource_ptr::<Events<E>>()
            .unwrap_or_else(|| panic!("event of {} not registered: {}", name, std::any::type_name::<E>()));
        EventReader {
            events: unsafe { &*p },
            seen,
        }
    }
}

impl<'a> SystemParam for &'a Components {
    type State = ();
    type Item<'w, 's> = &'w Components;
    fn init(_: &mut World) {}
    fn get<'w, 's>(_: &'s mut (), world: WorldPtr<'w>, _: &str) -> &'w Components {
        unsafe { &*world.0 }.components()
    }
}
impl<'a> SystemParam for &'a Archetypes {
    type State = ();
    type Item<'w, 's> = &'w Archetypes;
    fn init(_: &mut World) {}
    fn get<'w, 's>(_: &'s mut (), world: WorldPtr<'w>, _: &str) -> &'w Archetypes {
        unsafe { &*world.0 }.compute_archetypes()
    }
}

type Command = Box<dyn FnOnce(&mut World)>;
#[derive(Default)]
pub struct CommandQueue(Vec<Command>);

pub struct Commands<'w, 's> {
    queue: &'s mut CommandQueue,
    world: *mut World,
    _w: PhantomData<&'w ()>,
}
impl<'a, 'b> SystemParam for Commands<'a, 'b> {
    type State = CommandQueue;
    type Item<'w, 's> = Commands<'w, 's>;
    fn init(_: &mut World) -> CommandQueue {
        CommandQueue::default()
    }
    fn get<'w, 's>(queue: &'s mut CommandQueue, world: WorldPtr<'w>, _: &str) -> Commands<'w, 's> {
        Commands {
            queue,
            world: world.0,
            _w: PhantomData,
        }
    }
    fn apply(queue: &mut CommandQueue, world: &mut World) {
        for c in queue.0.drain(..) {
            c(world);
        }
    }
}
impl<'w, 's> Commands<'w, 's> {
    pub fn spawn_empty<'a>(&'a mut self) -> EntityCommands<'w, 's, 'a> {
        // The id is reserved immediately; an entity without components is
        // not matched by any of the queries in use before the stage ends.
        let entity = unsafe { (*self.world).reserve_entity() };
        EntityCommands {
            entity,
            commands: self,
        }
    }
    pub fn spawn<'a, B: Bundle>(&'a mut self, b: B) -> EntityCommands<'w, 's, 'a> {
        let mut e = self.spawn_empty();
        e.insert(b);
        e
    }
    pub fn entity<'a>(&'a mut self, entity: Entity) -> EntityCommands<'w, 's, 'a> {
        assert!(
            unsafe { (*self.world).is_alive(entity) },
            "Attempting to create an EntityCommands for entity {:?}, which doesn't exist.",
            entity
        );
        EntityCommands {
            entity,
            commands: self,
        }
    }
    pub fn insert_resource<R: Resource>(&mut self, r: R) {
        self.queue
            .0
            .push(Box::new(move |w: &mut World| w.insert_resource(r)));
    }
    pub fn init_resource<R: Resource + Default>(&mut self) {
        self.queue.0.push(Box::new(move |w: &mut World| w.init_resource::<R>()));
    }
    pub fn spawn_batch<I>(&mut self, bundles: I)
    where
        I: IntoIterator + Send + Sync + 'static,
        I::Item: Bundle,
    {
        for b in bundles {
            self.spawn(b);
        }
    }
    pub fn remove_resource<R: Resource>(&mut self) {
        self.queue.0.push(Box::new(move |w: &mut World| {
            w.remove_resource::<R>();
        }));
    }
}
pub struct EntityCommands<'w, 's, 'a> {
    entity: Entity,
    commands: &'a mut Commands<'w, 's>,
}
impl<'w, 's, 'a> EntityCommands<'w, 's, 'a> {
    pub fn id(&self) -> Entity {
        self.entity
    }
    pub fn insert<B: Bundle>(&mut self, b: B) -> &mut Self {
        let e = self.entity;
        self.commands
            .queue
            .0
            .push(Box::new(move |w: &mut World| b.insert_into(w, e)));
        self
    }
    pub fn remove<B: Bundle>(&mut self) -> &mut Self {
        let e = self.entity;
        self.commands.queue.0.push(Box::new(move |w: &mut World| {
            if w.is_alive(e) {
                B::remove_from(w, e)
            }
        }));
        self
    }
    pub fn despawn(&mut self) {
        let e = self.entity;
        self.commands.queue.0.push(Box::new(move |w: &mut World| {
            w.despawn(e);
        }));
    }
}

/// A system of any kind, ready to be run on a world.
pub trait System {
    type Out;
    fn run(&mut self, world: &mut World) -> Self::Out;
    fn apply(&mut self, world: &mut World);
    fn name(&self) -> &'static str;
}

pub trait SystemParamFunction<Out, Params>: 'static {
    type State: 'static;
    fn init_state(world: &mut World) -> Self::State;
    fn run_fn(&mut self, state: &mut Self::State, world: *mut World, name: &str) -> Out;
    fn apply_fn(state: &mut Self::State, world: &mut World);
}

macro_rules! system_fn {
    ($($p:ident),*) => {
        #[allow(non_snake_case, unused_variables, unused_unsafe)]
        impl<Out, Func, $($p: SystemParam + 'static),*> SystemParamFunction<Out, ($($p,)*)> for Func
        where
            Func: 'static,
            for<'a> &'a mut Func: FnMut($($p),*) -> Out + FnMut($(SystemParamItem<$p>),*) -> Out,
            Out: 'static,
        {
            type State = ($($p::State,)*);
            fn init_state(world: &mut World) -> Self::State {
                ($($p::init(world),)*)
            }
            fn run_fn(&mut self, state: &mut Self::State, world: *mut World, name: &str) -> Out {
                fn call_inner<Out, $($p),*>(mut f: impl FnMut($($p),*) -> Out, $($p: $p),*) -> Out {
                    f($($p),*)
                }
                let ($($p,)*) = state;
                $(let $p = <$p as SystemParam>::get($p, WorldPtr(world, PhantomData), name);)*
                call_inner(self, $($p),*)
            }
            fn apply_fn(state: &mut Self::State, world: &mut World) {
                let ($($p,)*) = state;
                $(<$p as SystemParam>::apply($p, world);)*
            }
        }
    };
}
system_fn!();
system_fn!(A);
system_fn!(A, B);
system_fn!(A, B, C);
system_fn!(A, B, C, D);
system_fn!(A, B, C, D, E);
system_fn!(A, B, C, D, E, F);
system_fn!(A, B, C, D, E, F, G);
system_fn!(A, B, C, D, E, F, G, H);
system_fn!(A, B, C, D, E, F, G, H, I);
system_fn!(A, B, C, D, E, F, G, H, I, J);
system_fn!(A, B, C, D, E, F, G, H, I, J, K);
system_fn!(A, B, C, D, E, F, G, H, I, J, K, L);
system_fn!(A, B, C, D, E, F, G, H, I, J, K, L, M);
system_fn!(A, B, C, D, E, F, G, H, I, J, K, L, M, N);
system_fn!(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O);
system_fn!(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P);

pub struct FunctionSystem<F, Out, Params>
where
    F: SystemParamFunction<Out, Params>,
{
    f: F,
    state: Option<F::State>,
    _p: PhantomData<fn() -> (Out, Params)>,
}
impl<F, Out, Params> FunctionSystem<F, Out, Params>
where
    F: SystemParamFunction<Out, Params>,
{
    pub fn new(f: F) -> Self {
        FunctionSystem {
            f,
            state: None,
            _p: PhantomData,
        }
    }
}
impl<F, Out, Params> System for FunctionSystem<F, Out, Params>
where
    F: SystemParamFunction<Out, Params>,
{
    type Out = Out;
    fn run(&mut self, world: &mut World) -> Out {
        if self.state.is_none() {
            self.state = Some(F::init_state(world));
        }
        let name = std::any::type_name::<F>();
        self.f
            .run_fn(self.state.as_mut().unwrap(), world as *mut World, name)
    }
    fn apply(&mut self, world: &mut World) {
        if let Some(s) = self.state.as_mut() {
            F::apply_fn(s, world);
        }
    }
    fn name(&self) -> &'static str {
        std::any::type_name::<F>()
    }
}
