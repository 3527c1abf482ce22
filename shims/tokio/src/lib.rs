//! tokio's interface over the simulator. Tasks, timers and files are simrt's;
//! channels, locks and I/O adaptors are the real ones, which need no runtime.
pub use real_tokio::{io, join, pin, select, sync, try_join};

pub mod fs;
pub mod task;
pub mod time;

pub use task::spawn;

pub mod runtime {
    //! Only what code that merely names the runtime needs.
    #[derive(Clone, Debug)]
    pub struct Handle;
    impl Handle {
        pub fn current() -> Handle {
            Handle
        }
        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where
            F: std::future::Future + Send + 'static,
            F::Output: Send + 'static,
        {
            crate::spawn(f)
        }
        pub fn spawn_blocking<F, R>(&self, f: F) -> crate::task::JoinHandle<R>
        where
            F: FnOnce() -> R + Send + 'static,
            R: Send + 'static,
        {
            crate::task::spawn_blocking(f)
        }
    }
}

pub mod signal {
    /// Nobody presses a key in a simulation.
    pub async fn ctrl_c() -> std::io::Result<()> {
        std::future::pending().await
    }
}
