//! The encodings of keys and values by the pinned release.
pub mod t0 {
    use ss_frozen as ss;
    include!("../../codec.rs");
    macro_rules! values { ($($x:tt)*) => { values_codec!($($x)*); }; }
    macro_rules! keys { ($($x:tt)*) => { keys_codec!($($x)*); }; }
    include!("../../lists/t0.rs");
}
pub mod t1 {
    use ss_frozen as ss;
    include!("../../codec.rs");
    macro_rules! values { ($($x:tt)*) => { values_codec!($($x)*); }; }
    macro_rules! keys { ($($x:tt)*) => { keys_codec!($($x)*); }; }
    include!("../../lists/t1.rs");
}
pub mod t2 {
    use ss_frozen as ss;
    include!("../../codec.rs");
    macro_rules! values { ($($x:tt)*) => { values_codec!($($x)*); }; }
    macro_rules! keys { ($($x:tt)*) => { keys_codec!($($x)*); }; }
    include!("../../lists/t2.rs");
}
pub mod t3 {
    use ss_frozen as ss;
    include!("../../codec.rs");
    macro_rules! values { ($($x:tt)*) => { values_codec!($($x)*); }; }
    macro_rules! keys { ($($x:tt)*) => { keys_codec!($($x)*); }; }
    include!("../../lists/t3.rs");
}
