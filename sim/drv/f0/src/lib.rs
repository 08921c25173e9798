//! The pinned release on a share of the geometries.
use ss_frozen as ss;
include!("../../drivers.rs");
dispatch!(1 1 32 0, 4 4 64 1, 1 4 96 2, 4 1 128 3,);
