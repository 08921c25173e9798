//! Type-erased faces of the storage types, so that engines and oracles are compiled once.
use crate::exec::Out;

/// Variable-length test key: one byte holds id and number of filler bytes, the filler is checked on decoding.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SKey {
    pub id: u8,
    pub x: u8,
}

pub const FILL: [usize; 4] = [0, 1, 3, 7];

impl SKey {
    pub fn encoded_len(self) -> usize {
        1 + FILL[self.x as usize]
    }
    pub fn filler(self, i: usize) -> u8 {
        self.id.wrapping_mul(37).wrapping_add(i as u8 * 11) ^ 0x5A
    }
}

/// Errors of the crate, without its generics
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum E {
    Storage,
    Full,
    Corrupted,
    LogicBug,
    BufTooBig,
    BufTooSmall(usize),
    Ser(String),
    TooBig,
    /// A step of the operation was dropped half-way
    Cancelled,
    Other,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct CacheCfg {
    pub id: u8,
    pub keys: usize,
    /// pages without room in the cache of page pointers
    pub missing: usize,
    /// key type, value type and whether the value type depends on the key (typed drivers only)
    pub kt: u8,
    pub vt: u8,
    pub vmix: bool,
}

impl CacheCfg {
    pub fn new(id: u8, keys: usize) -> Self {
        Self { id, keys, ..Self::default() }
    }
    pub fn vt_of(&self, id: u8, n: u8) -> u8 {
        ((u32::from(self.vt) + if self.vmix { u32::from(id) } else { 0 }) % u32::from(n)) as u8
    }
    /// Number of pages the cache of page pointers has room for
    pub fn ptrs(&self, pages: usize) -> usize {
        pages.saturating_sub(self.missing)
    }
    /// The same without a cache
    pub fn bare(&self) -> Self {
        Self { id: 0, keys: 1, ..*self }
    }
}

pub type R<T> = Out<Result<T, E>>;

pub trait DynMap {
    /// `how`: 0 store_item, 1 store_item_generic, 2 a value whose serializer fails, 3 as 2 with another error
    fn store(&mut self, buf: &mut [u8], k: SKey, v: &[u8], how: u8) -> R<()>;
    fn fetch(&mut self, buf: &mut [u8], k: SKey) -> R<Option<Vec<u8>>>;
    fn remove(&mut self, buf: &mut [u8], k: SKey) -> R<()>;
    fn remove_all(&mut self, buf: &mut [u8]) -> R<()>;
    fn erase_all(&mut self) -> R<()>;
    /// Iterate until the end, an error, or `limit` entries. Ok(true): reached the end.
    /// A next that fails or is cancelled is repeated on the same iterator up to `retries` times, with a larger buffer
    /// if that is the reason. `errs` gets what happened.
    fn iter(&mut self, buf: &mut [u8], limit: usize, retries: usize, out: &mut Vec<(SKey, Vec<u8>)>, errs: &mut Vec<E>) -> R<bool>;
    /// destroy() and new() with the same cache
    fn reopen(&mut self);
    fn overhead(&self) -> u32;
    /// Typed maps: fetch as a value of another type
    fn fetch_as(&mut self, _buf: &mut [u8], _k: SKey, _vt: u8) -> R<Option<Vec<u8>>> {
        unreachable!()
    }
}

pub type Entry = Vec<u8>;

/// Script for one queue iteration: what to do with the n-th entry seen
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Step {
    Skip,
    Pop,
}

/// What a queue iteration did
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    /// next returned an entry
    Entry(Vec<u8>),
    /// the last entry was popped, returning this
    Popped(Vec<u8>),
    PopErr(E),
    NextErr(E),
    End,
}

pub trait DynQueue {
    fn push(&mut self, data: &[u8], overwrite: bool) -> R<()>;
    fn pop(&mut self, buf: &mut [u8]) -> R<Option<Vec<u8>>>;
    fn peek(&mut self, buf: &mut [u8]) -> R<Option<Vec<u8>>>;
    /// Iterate; entry i is popped if bit i%64 of `mask` is set. Stops after `limit` entries (iterator dropped).
    /// A next that fails or is cancelled is retried on the same iterator up to `retries` times.
    fn iter(&mut self, buf: &mut [u8], mask: u64, limit: usize, retries: usize, ev: &mut Vec<Ev>) -> R<()>;
    fn max_fit(&mut self) -> R<Option<u32>>;
    fn space_left(&mut self) -> R<u32>;
    fn erase_all(&mut self) -> R<()>;
    fn reopen(&mut self);
    fn overhead(&self) -> u32;
}

/// What the introspection calls of a buffered queue report
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Counts {
    pub capacity: usize,
    pub free: usize,
    pub pending: usize,
    /// not offered by every variant
    pub used: Option<usize>,
    pub oldest: Option<Option<usize>>,
}

/// How a drain task is written
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TaskKind {
    /// loop { wait_and_drain_all }
    WaitAndDrainAll,
    /// loop { wait; drain_all }
    WaitThenDrainAll,
    /// loop { wait; while drain_one {} }
    WaitThenDrainOne,
}

/// Enqueue from an interrupt: (data, discard oldest) -> accepted
pub type Enqueue = std::rc::Rc<dyn Fn(&[u8], bool) -> bool>;

pub trait DynRing {
    fn enqueue(&mut self, data: &[u8], discard: bool) -> Out<bool>;
    fn drain_one(&mut self, scratch: &mut [u8], overwrite: bool) -> R<bool>;
    fn drain_all(&mut self, scratch: &mut [u8], overwrite: bool) -> R<()>;
    fn pop(&mut self, buf: &mut [u8], overwrite: bool) -> R<Option<Vec<u8>>>;
    fn peek(&mut self, buf: &mut [u8], overwrite: bool) -> R<Option<Vec<u8>>>;
    fn counts(&mut self) -> Out<Counts>;
    /// Take the storage out and wrap it again (the RAM content is gone)
    fn rewrap(&mut self);
    /// For interrupts, if the variant is made for it
    fn isr(&self) -> Option<Enqueue>;
    /// Run a drain task until the system is idle (None) or the task ends with an error
    fn task(&mut self, kind: TaskKind, scratch: &mut [u8], overwrite: bool, idle: &mut dyn FnMut() -> bool) -> Out<Option<E>>;
    /// Poll `wait` once. True: it was ready
    fn wait_once(&mut self) -> Out<bool>;
}

macro_rules! key_impl {
    ($ss:ident) => {
        const _: () = {
            use $ss::map::{Key, SerializationError};
            impl Key for SKey {
                fn serialize_into(&self, buffer: &mut [u8]) -> Result<usize, SerializationError> {
                    let n = self.encoded_len();
                    let b = buffer.get_mut(..n).ok_or(SerializationError::BufferTooSmall)?;
                    b[0] = self.id | (self.x << 6);
                    for i in 1..n {
                        b[i] = self.filler(i);
                    }
                    Ok(n)
                }
                fn deserialize_from(buffer: &[u8]) -> Result<(Self, usize), SerializationError> {
                    let b = *buffer.first().ok_or(SerializationError::BufferTooSmall)?;
                    let k = SKey { id: b & 63, x: b >> 6 };
                    let n = 1 + FILL[k.x as usize];
                    let d = buffer.get(..n).ok_or(SerializationError::BufferTooSmall)?;
                    if (1..n).any(|i| d[i] != k.filler(i)) {
                        return Err(SerializationError::InvalidData);
                    }
                    Ok((k, n))
                }
                fn get_len(buffer: &[u8]) -> Result<usize, SerializationError> {
                    let b = *buffer.first().ok_or(SerializationError::BufferTooSmall)?;
                    Ok(1 + FILL[(b >> 6) as usize])
                }
            }
        };
    };
}
key_impl!(sequential_storage);
key_impl!(ss_frozen);
