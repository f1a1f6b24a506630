use bevy_ecs::event::Event;
use bevy_ecs::event::Events;
use bevy_ecs::prelude::*;
use bevy_ecs::schedule::StateData;

pub mod prelude {
    pub use crate::App;
    pub use crate::CoreStage;
    pub use crate::Plugin;
    pub use crate::PluginGroup;
}

#[derive(StageLabel, Clone, Copy)]
pub enum CoreStage {
    First,
    PreUpdate,
    Update,
    PostUpdate,
    Last,
}
#[derive(StageLabel, Clone, Copy)]
pub struct StartupSchedule;

#[derive(Debug, Clone, Default)]
pub struct AppExit;

pub trait Plugin: 'static {
    fn build(&self, app: &mut App);
}
pub trait PluginGroup: Sized {
    fn build_group(self, app: &mut App);
}

pub struct ScheduleRunnerPlugin;
impl Plugin for ScheduleRunnerPlugin {
    fn build(&self, app: &mut App) {
        app.looping = true;
    }
}

pub struct App {
    pub world: World,
    pub schedule: Schedule,
    looping: bool,
}
impl Default for App {
    fn default() -> Self {
        let mut app = App::empty();
        app.schedule
            .add_stage(CoreStage::First, SystemStage::single_threaded())
            .add_stage(CoreStage::Last, SystemStage::single_threaded());
        app.add_event::<AppExit>();
        app
    }
}
impl App {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn empty() -> Self {
        App {
            world: World::default(),
            schedule: Schedule::default(),
            looping: false,
        }
    }
    pub fn update(&mut self) {
        self.schedule.run(&mut self.world);
    }
    pub fn run(&mut self) {
        loop {
            self.update();
            let exit = self
                .world
                .get_resource::<Events<AppExit>>()
                .map(|e| !e.is_empty())
                .unwrap_or(false);
            if exit || !self.looping {
                return;
            }
        }
    }
    pub fn add_event<T: Event>(&mut self) -> &mut Self {
        if !self.world.contains_resource::<Events<T>>() {
            self.world.insert_resource(Events::<T>::default());
            self.schedule
                .add_system_to_stage(CoreStage::First, Events::<T>::update_system);
        }
        self
    }
    pub fn add_stage_after<S: Stage>(
        &mut self,
        target: impl StageLabel,
        label: impl StageLabel,
        stage: S,
    ) -> &mut Self {
        self.schedule.add_stage_after(target, label, stage);
        self
    }
    fn startup(&mut self) -> &mut Schedule {
        self.schedule
            .get_stage_mut::<Schedule>(StartupSchedule)
            .expect("no startup schedule")
    }
    pub fn add_startup_stage_after<S: Stage>(
        &mut self,
        target: impl StageLabel,
        label: impl StageLabel,
        stage: S,
    ) -> &mut Self {
        self.startup().add_stage_after(target, label, stage);
        self
    }
    pub fn add_state<T: StateData>(&mut self, _: T) -> &mut Self {
        unimplemented!()
    }
    pub fn insert_resource<R: Resource>(&mut self, r: R) -> &mut Self {
        self.world.insert_resource(r);
        self
    }
    pub fn init_resource<R: Resource + Default>(&mut self) -> &mut Self {
        self.world.init_resource::<R>();
        self
    }
    pub fn insert_non_send_resource<R: 'static>(&mut self, r: R) -> &mut Self {
        self.world.insert_non_send_resource(r);
        self
    }
    pub fn add_plugin<T: Plugin>(&mut self, p: T) -> &mut Self {
        p.build(self);
        self
    }
    pub fn add_plugins<T: PluginGroup>(&mut self, p: T) -> &mut Self {
        p.build_group(self);
        self
    }
    pub fn add_system_to_stage<P>(
        &mut self,
        l: impl StageLabel,
        s: impl IntoSystemDescriptor<P>,
    ) -> &mut Self {
        self.schedule.add_system_to_stage(l, s);
        self
    }
    pub fn add_startup_system_to_stage<P>(
        &mut self,
        l: impl StageLabel,
        s: impl IntoSystemDescriptor<P>,
    ) -> &mut Self {
        self.startup().add_system_to_stage(l, s);
        self
    }
    pub fn add_system_set_to_stage(&mut self, l: impl StageLabel, s: SystemSet) -> &mut Self {
        self.schedule.add_system_set_to_stage(l, s);
        self
    }
}
