//! A small stand-in for the parts of bevy_ecs 0.9 that subsweep uses: same
//! documented semantics (stages, deferred commands, ordering constraints, run
//! criteria evaluated at the start of a stage, double-buffered events), with
//! the order of unconstrained systems and the iteration order of entities -
//! which bevy leaves unspecified - under the control of the simulator.
#![allow(clippy::all)]
pub mod bundle;
pub mod event;
pub mod query;
pub mod schedule;
pub mod system;
pub mod world;

pub mod component {
    pub use bevy_ecs_macros::Component;
    pub trait Component: Send + Sync + 'static {}

    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
    pub struct ComponentId(pub usize);
    pub struct ComponentInfo {
        pub name: &'static str,
    }
    impl ComponentInfo {
        pub fn name(&self) -> &str {
            self.name
        }
    }
    #[derive(Default)]
    pub struct Components {
        pub infos: Vec<ComponentInfo>,
    }
    impl Components {
        pub fn get_info(&self, id: ComponentId) -> Option<&ComponentInfo> {
            self.infos.get(id.0)
        }
    }
}
pub mod archetype {
    use crate::component::ComponentId;
    pub struct Archetype {
        pub comps: Vec<ComponentId>,
        pub len: usize,
    }
    impl Archetype {
        pub fn is_empty(&self) -> bool {
            self.len == 0
        }
        pub fn len(&self) -> usize {
            self.len
        }
        pub fn components(&self) -> impl Iterator<Item = ComponentId> + '_ {
            self.comps.iter().copied()
        }
    }
    #[derive(Default)]
    pub struct Archetypes {
        pub list: Vec<Archetype>,
    }
    impl Archetypes {
        pub fn iter(&self) -> impl Iterator<Item = &Archetype> {
            self.list.iter()
        }
    }
}
pub mod entity {
    #[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
    pub struct Entity {
        pub(crate) generation: u32,
        pub(crate) index: u32,
    }
    impl Entity {
        pub const fn from_raw(index: u32) -> Self {
            Entity {
                generation: 0,
                index,
            }
        }
        pub const fn to_bits(self) -> u64 {
            (self.generation as u64) << 32 | self.index as u64
        }
        pub const fn from_bits(bits: u64) -> Self {
            Entity {
                generation: (bits >> 32) as u32,
                index: bits as u32,
            }
        }
        pub const fn index(self) -> u32 {
            self.index
        }
        pub const fn generation(self) -> u32 {
            self.generation
        }
    }
}
pub mod prelude {
    pub use crate::bundle::Bundle;
    pub use crate::component::Component;
    pub use crate::entity::Entity;
    pub use crate::event::EventReader;
    pub use crate::event::EventWriter;
    pub use crate::event::Events;
    pub use crate::query::Query;
    pub use crate::query::With;
    pub use crate::query::Without;
    pub use crate::schedule::IntoSystemDescriptor;
    pub use crate::schedule::Schedule;
    pub use crate::schedule::Stage;
    pub use crate::schedule::StageLabel;
    pub use crate::schedule::SystemLabel;
    pub use crate::schedule::SystemSet;
    pub use crate::schedule::SystemStage;
    pub use crate::system::Commands;
    pub use crate::system::Local;
    pub use crate::system::NonSend;
    pub use crate::system::NonSendMut;
    pub use crate::system::Res;
    pub use crate::system::ResMut;
    pub use crate::system::Resource;
    pub use crate::world::Mut;
    pub use crate::world::World;
}
