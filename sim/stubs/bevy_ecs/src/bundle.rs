pub use bevy_ecs_macros::Bundle;

use crate::component::Component;
use crate::entity::Entity;
use crate::world::World;

pub trait Bundle: Send + Sync + 'static {
    fn insert_into(self, world: &mut World, entity: Entity);
    fn remove_from(world: &mut World, entity: Entity);
}

impl<C: Component> Bundle for C {
    fn insert_into(self, world: &mut World, entity: Entity) {
        world.insert_component(entity, self);
    }
    fn remove_from(world: &mut World, entity: Entity) {
        world.remove_component::<C>(entity);
    }
}

macro_rules! tuple_bundle {
    ($($t:ident),*) => {
        impl<$($t: Bundle),*> Bundle for ($($t,)*) {
            #[allow(non_snake_case, unused_variables)]
            fn insert_into(self, world: &mut World, entity: Entity) {
                let ($($t,)*) = self;
                $($t.insert_into(world, entity);)*
            }
            #[allow(unused_variables)]
            fn remove_from(world: &mut World, entity: Entity) {
                $($t::remove_from(world, entity);)*
            }
        }
    };
}
tuple_bundle!();
tuple_bundle!(A);
tuple_bundle!(A, B);
tuple_bundle!(A, B, C);
tuple_bundle!(A, B, C, D);
tuple_bundle!(A, B, C, D, E);
tuple_bundle!(A, B, C, D, E, F);
tuple_bundle!(A, B, C, D, E, F, G);
tuple_bundle!(A, B, C, D, E, F, G, H);
tuple_bundle!(A, B, C, D, E, F, G, H, I);
tuple_bundle!(A, B, C, D, E, F, G, H, I, J);
