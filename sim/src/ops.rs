//! Operation kinds of all engines (one name space, so that replay files are uniform).
pub const NAMES: &[&str] = &[
    "store", "fetch", "remove", "remove_all", "iter", "erase_all", "restart", "verify", "flip", "bad_store",
    "bad_fetch", "bad_remove", "bad_iter", "push", "pop", "peek", "qiter", "max_fit", "space_left", "bad_pop",
    "enqueue", "drain_one", "drain_all", "ring_pop", "ring_peek", "counts", "wait_task", "wait", "typed",
];
pub const STORE: u8 = 0;
pub const FETCH: u8 = 1;
pub const REMOVE: u8 = 2;
pub const REMOVE_ALL: u8 = 3;
pub const ITER: u8 = 4;
pub const ERASE_ALL: u8 = 5;
pub const RESTART: u8 = 6;
pub const VERIFY: u8 = 7;
pub const FLIP: u8 = 8;
pub const BAD_STORE: u8 = 9;
pub const BAD_FETCH: u8 = 10;
pub const BAD_REMOVE: u8 = 11;
pub const BAD_ITER: u8 = 12;
pub const PUSH: u8 = 13;
pub const POP: u8 = 14;
pub const PEEK: u8 = 15;
pub const QITER: u8 = 16;
pub const MAX_FIT: u8 = 17;
pub const SPACE_LEFT: u8 = 18;
pub const BAD_POP: u8 = 19;
pub const ENQUEUE: u8 = 20;
pub const DRAIN_ONE: u8 = 21;
pub const DRAIN_ALL: u8 = 22;
pub const RING_POP: u8 = 23;
pub const RING_PEEK: u8 = 24;
pub const WAIT_TASK: u8 = 26;
pub const WAIT: u8 = 27;
pub const TYPED: u8 = 28;

/// Buffer lengths around this one are relative to what is just enough for everything stored
pub const TIGHT: i64 = 1_000_000_000;

/// Actual length of a buffer
pub fn buf_len(a: i64, need: usize) -> Option<i64> {
    (a > 10_000_000).then(|| (need as i64 + (a - TIGHT).clamp(-64, 64)).max(0))
}
