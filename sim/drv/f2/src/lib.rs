//! The pinned release on a share of the geometries.
use ss_frozen as ss;
include!("../../drivers.rs");
dispatch!(16 4 256 0, 4 4 1024 5, 1 32 512 1, 4 4 4096 7,);
