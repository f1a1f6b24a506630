pub mod prelude {
    pub use crate::TaskPoolOptions;
}
#[derive(Clone, Debug, Default)]
pub struct TaskPoolOptions {
    pub num_threads: Option<usize>,
}
impl TaskPoolOptions {
    pub fn with_num_threads(n: usize) -> Self {
        TaskPoolOptions {
            num_threads: Some(n),
        }
    }
}
#[derive(Default)]
pub struct CorePlugin {
    pub task_pool_options: TaskPoolOptions,
}
impl bevy_app::Plugin for CorePlugin {
    fn build(&self, _: &mut bevy_app::App) {}
}
