//! A share of the geometries; one crate each so that they are compiled in parallel.
use sequential_storage as ss;
include!("../../drivers.rs");
dispatch!(8 8 128 4, 1 8 256 5,);
