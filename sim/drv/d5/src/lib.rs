//! A share of the geometries; one crate each so that they are compiled in parallel.
use sequential_storage as ss;
include!("../../drivers.rs");
dispatch!(1 32 512 1, 4 4 4096 7, 4 4 131072 9,);
