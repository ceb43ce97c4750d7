pub mod commands;
pub mod fs;
pub mod graph;
#[cfg(feature = "interval")]
pub mod interval;
pub mod lazy;
pub mod resources;
pub mod threads;
pub mod triggers;
pub mod tx;
