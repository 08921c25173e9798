values!(0 Vec<u8>, 1 heapless::Vec<u8, 40>, 2 heapless_09::Vec<u8, 40, u8>, 3 String, 4 heapless::String<40>, 5 heapless_09::String<40>, 6 Post<'static>, 7 Slice, 8 Opt<String>);
keys!(
    0 Vec<u8>, 4 4 1024 0;
    1 arrayvec::ArrayVec<u8, 300>, 1 1 1024 1;
    2 heapless_09::Vec<u8, 300>, 8 8 1024 0;
    3 String, 1 4 1024 1;
    4 heapless::String<24>, 4 4 256 0;
    5 heapless::String<300>, 4 4 2048 2;
    6 heapless_09::String<24, u8>, 4 4 256 1;
);
