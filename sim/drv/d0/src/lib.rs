//! A share of the geometries; one crate each so that they are compiled in parallel.
use sequential_storage as ss;
include!("../../drivers.rs");
dispatch!(1 1 32 0, 4 4 64 1,);
