//! A share of the key and value types.
use sequential_storage as ss;
include!("../../codec.rs");
include!("../../typed.rs");
include!("../../lists/t1.rs");
