//! Simulated NOR flash. `SimFlash` is the thin generic face the crate under test sees (its
//! READ/WRITE/ERASE sizes are compile-time constants); all behaviour lives in the non-generic `Core`.
use crate::rng::hash_bytes;
use embedded_storage_async::nor_flash::{
    ErrorType, MultiwriteNorFlash, NorFlash, NorFlashError, NorFlashErrorKind, ReadNorFlash,
};
use std::cell::RefCell;
use std::future::poll_fn;
use std::rc::Rc;
use std::task::Poll;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Geo {
    pub r: u32,
    pub w: u32,
    pub e: u32,
    pub pages: u32,
    pub base: u32,
}

impl Geo {
    pub fn word(&self) -> u32 {
        self.r.max(self.w)
    }
    pub fn header(&self) -> u32 {
        8u32.next_multiple_of(self.word())
    }
    /// Bytes of a page usable for items
    pub fn page_data(&self) -> u32 {
        self.e - 2 * self.word()
    }
    /// Largest item payload that can ever be stored
    pub fn max_item(&self) -> u32 {
        (self.page_data() - self.header()).min(65535)
    }
    /// Flash bytes taken by an item with the given payload length
    pub fn item_size(&self, len: u32) -> u32 {
        self.header() + len.next_multiple_of(self.word())
    }
    pub fn len(&self) -> u32 {
        self.e * self.pages
    }
    pub fn range(&self) -> core::ops::Range<u32> {
        self.base..self.base + self.len()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    /// Power loss during the n-th mutation (program/erase) of the operation, `cut` bytes took effect
    Power,
    /// The n-th access of the operation fails; a mutation has `cut` bytes of effect
    Error,
    /// The operation's future is dropped while the n-th access is pending; a mutation has `cut` bytes of effect
    Cancel,
    /// The n-th read of the operation returns data with bit `cut` inverted
    Glitch,
    /// An interrupt runs right before the n-th access of the operation (ring engine)
    Isr,
    /// As Error, but n counts mutations only
    MutError,
    /// As Cancel, but n counts mutations only
    MutCancel,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fault {
    pub kind: FaultKind,
    pub n: i64,
    /// >= 0: bytes from the start (clamped to the length); < 0: all but that many bytes.
    pub cut: i64,
}

pub const FULL: i64 = 1 << 24;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SimErr;
impl NorFlashError for SimErr {
    fn kind(&self) -> NorFlashErrorKind {
        NorFlashErrorKind::Other
    }
}
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("simulated flash error")
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Interrupted {
    No,
    Cancel,
    Power,
}

/// What happened on this flash since it was created.
#[derive(Clone, Default, Debug)]
pub struct FlashStats {
    pub reads: u64,
    pub writes: u64,
    pub erases: u64,
    pub bytes_read: u64,
    pub bytes_written: u64,
    pub bytes_erased: u64,
    pub fired: [u64; 7],
    /// fired inside a program / erase / read access
    pub fired_in: [u64; 3],
}

#[derive(Clone)]
pub struct Core {
    pub geo: Geo,
    pub mem: Vec<u8>,
    /// complete programs per write unit since the last erase
    pub prog: Vec<u8>,
    /// pages on which anything was programmed since their last complete erase
    pub used: Vec<bool>,
    /// P17: interrupted programs never leave a single programmed bit
    pub far: bool,
    /// which program call wrote the byte (0: erased)
    pub writer: Vec<u32>,
    pub prog_calls: u32,
    /// the history uses item removal, so header units may be programmed a second time
    pub multi: bool,
    /// caller buffers are 4-byte aligned, so write buffers have to be, too
    pub check_align: bool,
    pub contract: Option<String>,
    pub stats: FlashStats,
    /// (page, was anything programmed on it since the last erase)
    pub erase_log: Vec<(u32, bool)>,
    pub trace_hash: u64,
    /// per-operation state
    pub faults: Vec<Fault>,
    pub calls: i64,
    pub reads: i64,
    pub muts: i64,
    pub budget: i64,
    pub interrupted: Interrupted,
    /// faults that fired during the current operation
    pub fired: Vec<Fault>,
    pub mutated_this_op: bool,
    /// each access first returns Pending this many times (schedule noise)
    pub yields: u32,
    pub log: Option<Vec<String>>,
}

pub type CoreRef = Rc<RefCell<Core>>;

enum Act {
    Ok,
    Err,
    Never,
}

pub const HUNG: &str = "SIM-STEP-BUDGET-EXCEEDED";

impl Core {
    pub fn new(geo: Geo) -> Self {
        let len = geo.len() as usize;
        Self {
            geo,
            mem: vec![0xFF; len],
            prog: vec![0; len / geo.w as usize],
            used: vec![false; geo.pages as usize],
            far: false,
            writer: vec![0; len],
            prog_calls: 0,
            multi: true,
            check_align: true,
            contract: None,
            stats: FlashStats::default(),
            erase_log: Vec::new(),
            trace_hash: 0,
            faults: Vec::new(),
            calls: 0,
            reads: 0,
            muts: 0,
            budget: 0,
            interrupted: Interrupted::No,
            fired: Vec::new(),
            mutated_this_op: false,
            yields: 0,
            log: None,
        }
    }

    pub fn shared(self) -> CoreRef {
        Rc::new(RefCell::new(self))
    }

    /// A copy of the flash image with no pending faults, for what-if exploration.
    pub fn fork(&self) -> CoreRef {
        let mut c = Core {
            faults: Vec::new(),
            fired: Vec::new(),
            log: None,
            stats: FlashStats::default(),
            erase_log: Vec::new(),
            ..self.clone()
        };
        c.begin_op(&[]);
        c.shared()
    }

    pub fn default_budget(&self) -> i64 {
        let n = i64::from(self.geo.pages);
        let items = i64::from(self.geo.page_data() / self.geo.header()) + 2;
        // A store may recycle every page, look up every item of each, and scan all items for each lookup.
        (2000 + 16 * n * n * items.min(200) * items.min(200)).min(50_000_000)
    }

    pub fn begin_op(&mut self, faults: &[Fault]) {
        self.faults.clear();
        self.faults.extend_from_slice(faults);
        self.calls = 0;
        self.reads = 0;
        self.muts = 0;
        self.budget = self.default_budget();
        self.interrupted = Interrupted::No;
        self.fired.clear();
        self.mutated_this_op = false;
    }

    fn note(&mut self, s: impl FnOnce() -> String) {
        if let Some(l) = self.log.as_mut() {
            l.push(s());
        }
    }

    fn violate(&mut self, s: String) {
        if self.contract.is_none() {
            self.contract = Some(s);
        }
    }

    fn tick(&mut self) {
        self.calls += 1;
        self.budget -= 1;
        if self.budget < 0 {
            std::panic::panic_any(HUNG);
        }
    }

    fn take_fault(&mut self, is_mut: bool) -> Option<Fault> {
        let (calls, muts) = (self.calls - 1, self.muts - 1);
        let pos = self.faults.iter().position(|f| match f.kind {
            FaultKind::Power | FaultKind::MutError | FaultKind::MutCancel => is_mut && f.n == muts,
            FaultKind::Error | FaultKind::Cancel => f.n == calls,
            FaultKind::Glitch | FaultKind::Isr => false,
        })?;
        let f = self.faults.remove(pos);
        self.fired.push(f);
        self.stats.fired[f.kind as usize] += 1;
        Some(f)
    }

    fn cut_len(cut: i64, len: usize) -> usize {
        if cut >= 0 {
            (cut as usize).min(len)
        } else {
            len.saturating_sub((-cut) as usize)
        }
    }

    fn act(&mut self, f: Option<Fault>) -> Act {
        match f.map(|f| f.kind) {
            None => Act::Ok,
            Some(FaultKind::Power) => {
                self.interrupted = Interrupted::Power;
                Act::Never
            }
            Some(FaultKind::Cancel | FaultKind::MutCancel) => {
                self.interrupted = Interrupted::Cancel;
                Act::Never
            }
            Some(_) => Act::Err,
        }
    }

    fn on_read(&mut self, offset: u32, bytes: &mut [u8]) -> Act {
        self.tick();
        self.reads += 1;
        self.stats.reads += 1;
        self.stats.bytes_read += bytes.len() as u64;
        if self.interrupted != Interrupted::No {
            return Act::Never;
        }
        let g = self.geo;
        if offset % g.r != 0 || bytes.len() as u32 % g.r != 0 {
            self.violate(format!("unaligned read at {offset:#x} len {}", bytes.len()));
            return Act::Err;
        }
        if offset < g.base || u64::from(offset) + bytes.len() as u64 > u64::from(g.base) + u64::from(g.len()) {
            self.violate(format!("read outside of the range at {offset:#x} len {}", bytes.len()));
            return Act::Err;
        }
        let f = self.take_fault(false);
        let a = self.act(f);
        match a {
            Act::Ok => {
                let s = (offset - g.base) as usize;
                bytes.copy_from_slice(&self.mem[s..s + bytes.len()]);
                let rn = self.reads - 1;
                if let Some(pos) = self
                    .faults
                    .iter()
                    .position(|f| f.kind == FaultKind::Glitch && f.n == rn)
                {
                    let f = self.faults.remove(pos);
                    if !bytes.is_empty() {
                        let bit = f.cut.unsigned_abs() as usize % (bytes.len() * 8);
                        bytes[bit / 8] ^= 1 << (bit % 8);
                        self.fired.push(f);
                        self.stats.fired[FaultKind::Glitch as usize] += 1;
                        self.stats.fired_in[2] += 1;
                        self.note(|| format!("    glitch: read {offset:#x}+{} bit {bit}", bytes.len()));
                    }
                }
            }
            Act::Err => {
                for b in bytes.iter_mut() {
                    *b = 0xA5;
                }
                self.stats.fired_in[2] += 1;
                self.note(|| format!("    read {offset:#x}+{} FAILS", bytes.len()));
            }
            Act::Never => {
                self.stats.fired_in[2] += 1;
                self.note(|| format!("    read {offset:#x}+{} INTERRUPTED", bytes.len()));
            }
        }
        a
    }

    fn on_write(&mut self, offset: u32, bytes: &[u8]) -> Act {
        self.tick();
        self.muts += 1;
        self.stats.writes += 1;
        if self.interrupted != Interrupted::No {
            return Act::Never;
        }
        let g = self.geo;
        if offset % g.w != 0 || bytes.len() as u32 % g.w != 0 || bytes.is_empty() {
            self.violate(format!("unaligned or empty program at {offset:#x} len {}", bytes.len()));
            return Act::Err;
        }
        if offset < g.base || u64::from(offset) + bytes.len() as u64 > u64::from(g.base) + u64::from(g.len()) {
            self.violate(format!("program outside of the range at {offset:#x} len {}", bytes.len()));
            return Act::Err;
        }
        if self.check_align && bytes.as_ptr() as usize % 4 != 0 {
            self.violate(format!("program buffer not 4-byte aligned at {offset:#x} len {}", bytes.len()));
        }
        let f = self.take_fault(true);
        let mut n = f.map_or(bytes.len(), |f| Self::cut_len(f.cut, bytes.len()));
        // What is one bit away from never started or from completed is too much for a reader that may see a flipped bit
        let old = &self.mem[(offset - g.base) as usize..][..bytes.len()];
        let cleared = |r: std::ops::Range<usize>| r.map(|i| (old[i] & !bytes[i]).count_ones()).sum::<u32>();
        while self.far && n < bytes.len() && (cleared(0..n) == 1 || cleared(n..bytes.len()) == 1) {
            n += 1;
        }
        let s = (offset - g.base) as usize;
        let w = g.w as usize;
        for u in 0..n.div_ceil(w) {
            let unit = (s + u * w) / w;
            let new = &bytes[u * w..(u + 1) * w];
            let eff = &bytes[u * w..((u + 1) * w).min(n)];
            if eff.iter().all(|b| *b == 0xFF) {
                continue;
            }
            let old = &self.mem[s + u * w..s + (u + 1) * w];
            let count = self.prog[unit];
            let sets_bits = new.iter().zip(old).any(|(n, o)| n & !o != 0);
            // A program that was cut off inside of this unit may be completed later, but not replaced by something else
            if sets_bits || count >= 2 || (count == 1 && !self.multi) {
                let m = format!(
                    "write unit at {:#x} programmed again without erase (programmed {count}x before, removal used: {}, old {old:02x?}, new {new:02x?})",
                    g.base as usize + unit * w, self.multi,
                );
                self.violate(m);
            }
            if eff.len() == w {
                self.prog[unit] = self.prog[unit].saturating_add(1);
            }
            self.used[(s + u * w) / g.e as usize] = true;
        }
        self.prog_calls += 1;
        for i in 0..n {
            if bytes[i] != 0xFF {
                self.mem[s + i] &= bytes[i];
                self.writer[s + i] = self.prog_calls;
            }
        }
        self.mutated_this_op = true;
        self.stats.bytes_written += n as u64;
        self.trace_hash = hash_bytes(self.trace_hash ^ u64::from(offset), &bytes[..n]);
        if f.is_some() {
            self.stats.fired_in[0] += 1;
        }
        self.note(|| {
            format!(
                "    program {offset:#x}+{}{} {:02x?}",
                bytes.len(),
                f.map_or(String::new(), |f| format!(" [{:?} after {n} bytes]", f.kind)),
                &bytes[..bytes.len().min(16)]
            )
        });
        self.act(f)
    }

    fn on_erase(&mut self, from: u32, to: u32) -> Act {
        self.tick();
        self.muts += 1;
        self.stats.erases += 1;
        if self.interrupted != Interrupted::No {
            return Act::Never;
        }
        let g = self.geo;
        if from % g.e != 0 || to % g.e != 0 || from >= to {
            self.violate(format!("unaligned or empty erase {from:#x}..{to:#x}"));
            return Act::Err;
        }
        if from < g.base || u64::from(to) > u64::from(g.base) + u64::from(g.len()) {
            self.violate(format!("erase outside of the range {from:#x}..{to:#x}"));
            return Act::Err;
        }
        let f = self.take_fault(true);
        let len = (to - from) as usize;
        let n = f.map_or(len, |f| Self::cut_len(f.cut, len));
        let s = (from - g.base) as usize;
        for p in s / g.e as usize..(s + n).div_ceil(g.e as usize) {
            self.erase_log.push((p as u32, self.used[p]));
            // An interrupted erase may have to be repeated, even if it had done all it could
            self.used[p] = f.is_some();
        }
        for b in &mut self.mem[s..s + n] {
            *b = 0xFF;
        }
        self.writer[s..s + n].fill(0);
        // Only completely erased units count as fresh
        for u in s / g.w as usize..(s + n) / g.w as usize {
            self.prog[u] = 0;
        }
        self.mutated_this_op = true;
        self.stats.bytes_erased += n as u64;
        self.trace_hash = hash_bytes(self.trace_hash ^ u64::from(from) ^ 0xE, &(n as u32).to_le_bytes());
        if f.is_some() {
            self.stats.fired_in[1] += 1;
        }
        self.note(|| {
            format!(
                "    erase {from:#x}..{to:#x}{}",
                f.map_or(String::new(), |f| format!(" [{:?} after {n} bytes]", f.kind))
            )
        });
        self.act(f)
    }

    /// True if any fault fired in the current operation
    pub fn any_fired(&self) -> bool {
        !self.fired.is_empty()
    }
}

pub struct SimFlash<const R: usize, const W: usize, const E: usize>(pub CoreRef);

impl<const R: usize, const W: usize, const E: usize> ErrorType for SimFlash<R, W, E> {
    type Error = SimErr;
}

async fn yields(core: &CoreRef) {
    let n = core.borrow().yields;
    for _ in 0..n {
        let mut first = true;
        poll_fn(|cx| {
            if first {
                first = false;
                cx.waker().wake_by_ref();
                Poll::Pending
            } else {
                Poll::Ready(())
            }
        })
        .await;
        crate::isr::point();
    }
}

async fn finish(a: Act) -> Result<(), SimErr> {
    match a {
        Act::Ok => Ok(()),
        Act::Err => Err(SimErr),
        Act::Never => poll_fn(|_| Poll::<Result<(), SimErr>>::Pending).await,
    }
}

impl<const R: usize, const W: usize, const E: usize> ReadNorFlash for SimFlash<R, W, E> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, offset: u32, bytes: &mut [u8]) -> Result<(), SimErr> {
        crate::isr::point();
        yields(&self.0).await;
        let a = self.0.borrow_mut().on_read(offset, bytes);
        finish(a).await
    }
    fn capacity(&self) -> usize {
        let g = self.0.borrow().geo;
        g.base as usize + g.len() as usize
    }
}

impl<const R: usize, const W: usize, const E: usize> NorFlash for SimFlash<R, W, E> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = E;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), SimErr> {
        crate::isr::point();
        yields(&self.0).await;
        let a = self.0.borrow_mut().on_erase(from, to);
        crate::isr::point();
        finish(a).await
    }
    async fn write(&mut self, offset: u32, bytes: &[u8]) -> Result<(), SimErr> {
        crate::isr::point();
        yields(&self.0).await;
        let a = self.0.borrow_mut().on_write(offset, bytes);
        crate::isr::point();
        finish(a).await
    }
}

impl<const R: usize, const W: usize, const E: usize> MultiwriteNorFlash for SimFlash<R, W, E> {}
