values!(0 u8, 1 u16, 2 u32, 3 u64, 4 u128, 5 i8, 6 bool, 7 Opt<u32>, 8 Slice);
keys!(
    0 u8, 4 4 256 0;
    1 u16, 1 4 256 1;
    2 u32, 8 8 256 2;
    3 u64, 4 1 192 0;
    4 u128, 1 1 256 1;
);
