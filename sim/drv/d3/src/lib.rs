//! A share of the geometries; one crate each so that they are compiled in parallel.
use sequential_storage as ss;
include!("../../drivers.rs");
dispatch!(32 32 384 6, 2 2 48 7,);
