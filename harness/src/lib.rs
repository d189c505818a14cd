//! Shared machinery: cases, key types, oracles, iterator driver, engine.
pub mod atomic;
pub mod case;
pub mod drive;
pub mod drops;
#[cfg(feature = "pbt")]
pub mod engine;
pub mod key;
pub mod memory;
pub mod oracle;
pub mod panics;
pub mod passes;
pub mod resources;
pub mod sets;
pub mod sparse;
pub mod total;
pub mod types;
pub mod ub;
