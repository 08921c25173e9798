//! Deterministic simulator core for sequential-storage: simulated NOR flash with fault injection,
//! single-step executor, generic case format, search/minimise/replay driver, evidence writer.
pub mod api;
pub mod case;
pub mod exec;
pub mod flash;
pub mod isr;
pub mod layout;
pub mod payload;
pub mod rng;
pub mod runner;
pub mod typed;
