//! What the binaries use to set up logging; nothing is logged in a simulated process.
pub mod fmt {
    pub mod format {
        #[derive(Clone, Copy)]
        pub struct FmtSpan;
        impl FmtSpan {
            pub const NEW: Self = Self;
            pub const ENTER: Self = Self;
            pub const EXIT: Self = Self;
            pub const CLOSE: Self = Self;
            pub const NONE: Self = Self;
            pub const ACTIVE: Self = Self;
            pub const FULL: Self = Self;
        }
        impl std::ops::BitOr for FmtSpan {
            type Output = Self;
            fn bitor(self, _: Self) -> Self {
                self
            }
        }
    }
    pub struct Subscriber;
    impl Subscriber {
        pub fn builder() -> SubscriberBuilder {
            SubscriberBuilder
        }
    }
    pub fn fmt() -> SubscriberBuilder {
        SubscriberBuilder
    }
    pub fn init() {}
    pub fn try_init() -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
        Ok(())
    }
    pub struct SubscriberBuilder;
    impl SubscriberBuilder {
        pub fn with_span_events(self, _: format::FmtSpan) -> Self {
            self
        }
        pub fn with_max_level<L>(self, _: L) -> Self {
            self
        }
        pub fn with_target(self, _: bool) -> Self {
            self
        }
        pub fn with_level(self, _: bool) -> Self {
            self
        }
        pub fn with_ansi(self, _: bool) -> Self {
            self
        }
        pub fn with_file(self, _: bool) -> Self {
            self
        }
        pub fn with_line_number(self, _: bool) -> Self {
            self
        }
        pub fn with_thread_ids(self, _: bool) -> Self {
            self
        }
        pub fn with_thread_names(self, _: bool) -> Self {
            self
        }
        pub fn with_writer<W>(self, _: W) -> Self {
            self
        }
        pub fn without_time(self) -> Self {
            self
        }
        pub fn compact(self) -> Self {
            self
        }
        pub fn pretty(self) -> Self {
            self
        }
        pub fn init(self) {}
        pub fn try_init(self) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
            Ok(())
        }
    }
}
pub use fmt::fmt;
