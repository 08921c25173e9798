values!(0 i16, 1 i32, 2 i64, 3 i128, 4 f32, 5 f64, 6 Opt<bool>, 7 Opt<Slice>, 8 [u8; 0], 9 [u8; 5], 10 [f64; 2], 11 [u128; 2]);
keys!(
    0 i8, 4 4 256 1;
    1 i16, 2 2 192 0;
    2 i32, 4 4 512 2;
    3 i64, 1 8 256 0;
    4 i128, 32 32 512 1;
    5 (), 4 4 192 0;
    6 [u8; 0], 1 1 192 1;
);
