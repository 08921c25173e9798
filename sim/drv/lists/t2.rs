values!(0 [u16; 3], 1 [i32; 4], 2 [u64; 2], 3 [f32; 3], 4 [i128; 1], 5 [i8; 7], 6 Opt<[u16; 3]>, 7 Post<'static>, 8 [i16; 1], 9 [u32; 2], 10 [i64; 1]);
keys!(
    0 [u8; 1], 4 4 256 0;
    1 [u8; 3], 1 1 192 1;
    2 [u8; 16], 4 4 256 2;
    3 arrayvec::ArrayVec<u8, 24>, 1 4 256 0;
    4 heapless::Vec<u8, 24>, 4 4 256 1;
    5 heapless_09::Vec<u8, 24, u8>, 8 8 384 0;
    6 arrayvec::ArrayString<24>, 4 1 256 1;
);
