//! `tokio_util` with the task tracker's tasks under the simulator's scheduler.
pub use tokio_util_real::*;

pub mod task {
    pub use tokio_util_real::task::*;
    use std::future::Future;
    use tokio_real::task::JoinHandle;

    #[derive(Clone, Debug, Default)]
    pub struct TaskTracker(tokio_util_real::task::TaskTracker);

    impl TaskTracker {
        pub fn new() -> Self {
            TaskTracker(tokio_util_real::task::TaskTracker::new())
        }
        pub fn spawn<F>(&self, task: F) -> JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            simcore::sched::spawn_broker(self.0.track_future(task))
        }
        pub fn spawn_blocking<F, T>(&self, task: F) -> JoinHandle<T>
        where
            F: FnOnce() -> T + Send + 'static,
            T: Send + 'static,
        {
            self.spawn(async move { task() })
        }
    }
    impl std::ops::Deref for TaskTracker {
        type Target = tokio_util_real::task::TaskTracker;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
}
