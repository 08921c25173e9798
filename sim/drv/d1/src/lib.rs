//! A share of the geometries; one crate each so that they are compiled in parallel.
use sequential_storage as ss;
include!("../../drivers.rs");
dispatch!(1 4 96 2, 4 1 128 3,);
