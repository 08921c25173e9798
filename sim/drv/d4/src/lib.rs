//! A share of the geometries; one crate each so that they are compiled in parallel.
use sequential_storage as ss;
include!("../../drivers.rs");
dispatch!(16 4 256 0, 4 4 1024 5,);
