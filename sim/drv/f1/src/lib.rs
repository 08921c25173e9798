//! The pinned release on a share of the geometries.
use ss_frozen as ss;
include!("../../drivers.rs");
dispatch!(8 8 128 4, 1 8 256 5, 32 32 384 6, 2 2 48 7,);
