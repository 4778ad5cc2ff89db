//! tokio's interface, executed by the deterministic simulator. Synchronisation primitives, the I/O
//! traits and helpers and the macros are tokio's own code (tokio-real); tasks, timers, sockets and
//! signals belong to the simulator.
pub use tokio_real::{join, pin, select, sync, try_join};
pub use tokio_real::io as real_io;
pub use tokio_macros::main;
pub mod io {
    pub use tokio_real::io::*;
    /// The directions a caller asks about, and those that are ready.
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Interest(u8);
    impl Interest {
        pub const READABLE: Interest = Interest(1);
        pub const WRITABLE: Interest = Interest(2);
        pub const fn is_readable(self) -> bool {
            self.0 & 1 != 0
        }
        pub const fn is_writable(self) -> bool {
            self.0 & 2 != 0
        }
        pub const fn add(self, o: Interest) -> Interest {
            Interest(self.0 | o.0)
        }
    }
    impl std::ops::BitOr for Interest {
        type Output = Self;
        fn bitor(self, o: Self) -> Self {
            self.add(o)
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Ready {
        pub(crate) r: bool,
        pub(crate) w: bool,
    }
    impl Ready {
        pub fn is_readable(self) -> bool {
            self.r
        }
        pub fn is_writable(self) -> bool {
            self.w
        }
        pub fn is_empty(self) -> bool {
            !self.r && !self.w
        }
    }
}
pub mod net;
pub mod runtime;
pub mod signal;
pub mod task;
pub mod time;
pub use task::spawn;
