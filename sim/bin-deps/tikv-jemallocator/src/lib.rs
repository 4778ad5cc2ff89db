//! The global allocator of bin/server.rs: here the one that charges every byte to its process.
pub use simrt::alloc::SimAlloc as Jemalloc;
