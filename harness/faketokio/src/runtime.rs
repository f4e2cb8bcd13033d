//! A runtime with one thread and a clock that moves only when there is nothing left to do.
pub use real_tokio::runtime::{EnterGuard, Handle, RuntimeFlavor, TryCurrentError};
use std::{future::Future, io, time::Duration};

pub struct Builder(());
impl Builder {
    pub fn new_multi_thread() -> Self {
        Builder(())
    }
    pub fn new_current_thread() -> Self {
        Builder(())
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn worker_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> io::Result<Runtime> {
        Runtime::new()
    }
}
pub struct Runtime(real_tokio::runtime::Runtime);
impl Runtime {
    pub fn new() -> io::Result<Runtime> {
        real_tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().map(Runtime)
    }
    pub fn block_on<F: Future>(&self, main: F) -> F::Output {
        self.0.block_on(crate::drive::run(main))
    }
    pub fn spawn<F>(&self, f: F) -> real_tokio::task::JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        self.0.spawn(f)
    }
    pub fn handle(&self) -> &Handle {
        self.0.handle()
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        self.0.enter()
    }
    pub fn shutdown_timeout(self, d: Duration) {
        self.0.shutdown_timeout(d)
    }
    pub fn shutdown_background(self) {
        self.0.shutdown_background()
    }
}
