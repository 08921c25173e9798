//! Small in-memory NOR flash for demonstrations: power loss, failing accesses, one disturbed read.
#![allow(dead_code)]
use embedded_storage_async::nor_flash::*;
use std::cell::RefCell;
use std::future::Future;
use std::pin::pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

pub struct Chip {
    pub mem: Vec<u8>,
    /// programs per write unit since the last erase
    pub prog: Vec<u32>,
    pub reads: usize,
    pub muts: usize,
    pub erases: Vec<u32>,
    /// power is lost at the n-th program/erase after the given number of bytes
    pub cut: Option<(usize, usize)>,
    /// the n-th read fails
    pub fail_read: Option<usize>,
    /// the n-th program/erase fails without effect
    pub fail_mut: Option<usize>,
    /// the n-th program/erase takes effect completely but never returns (to drop the future there)
    pub stall_mut: Option<usize>,
    /// the n-th read has this bit inverted
    pub glitch: Option<(usize, usize)>,
    pub dead: bool,
    /// anything the device cannot do: unaligned, out of range, programmed too often
    pub bad: Option<String>,
    pub max_prog: u32,
}

#[derive(Clone)]
pub struct Flash<const R: usize, const W: usize, const E: usize>(pub Rc<RefCell<Chip>>);

#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Broken;
impl NorFlashError for Broken {
    fn kind(&self) -> NorFlashErrorKind {
        NorFlashErrorKind::Other
    }
}

impl<const R: usize, const W: usize, const E: usize> Flash<R, W, E> {
    pub fn new(pages: usize) -> Self {
        Self::from_mem(vec![0xFF; pages * E])
    }
    pub fn from_mem(mem: Vec<u8>) -> Self {
        let units = mem.len() / W;
        Flash(Rc::new(RefCell::new(Chip {
            mem,
            prog: vec![0; units],
            reads: 0,
            muts: 0,
            erases: vec![],
            cut: None,
            fail_read: None,
            fail_mut: None,
            stall_mut: None,
            glitch: None,
            dead: false,
            bad: None,
            max_prog: 2,
        })))
    }
    pub fn mem(&self) -> Vec<u8> {
        self.0.borrow().mem.clone()
    }
    pub fn range(&self) -> std::ops::Range<u32> {
        0..self.0.borrow().mem.len() as u32
    }
    /// Forget counters and faults
    pub fn arm(&self) -> std::cell::RefMut<'_, Chip> {
        let mut c = self.0.borrow_mut();
        c.reads = 0;
        c.muts = 0;
        c.cut = None;
        c.fail_read = None;
        c.fail_mut = None;
        c.stall_mut = None;
        c.glitch = None;
        c.dead = false;
        c
    }
}

impl<const R: usize, const W: usize, const E: usize> ErrorType for Flash<R, W, E> {
    type Error = Broken;
}

impl<const R: usize, const W: usize, const E: usize> ReadNorFlash for Flash<R, W, E> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, offset: u32, bytes: &mut [u8]) -> Result<(), Broken> {
        let mut c = self.0.borrow_mut();
        let n = c.reads;
        c.reads += 1;
        assert!(n < 5_000_000, "endless loop");
        if c.dead || c.fail_read == Some(n) {
            return Err(Broken);
        }
        let (o, l) = (offset as usize, bytes.len());
        if o % R != 0 || l % R != 0 || o + l > c.mem.len() {
            c.bad = Some(format!("bad read {o:#x}+{l}"));
            return Err(Broken);
        }
        bytes.copy_from_slice(&c.mem[o..o + l]);
        if let Some((g, bit)) = c.glitch {
            if g == n {
                bytes[bit / 8 % l] ^= 1 << (bit % 8);
            }
        }
        Ok(())
    }
    fn capacity(&self) -> usize {
        self.0.borrow().mem.len()
    }
}

impl<const R: usize, const W: usize, const E: usize> Flash<R, W, E> {
    async fn mutate(&mut self, f: impl FnOnce(&mut Chip, usize), len: usize) -> Result<(), Broken> {
        let stall = {
            let mut c = self.0.borrow_mut();
            let n = c.muts;
            c.muts += 1;
            if c.dead || c.fail_mut == Some(n) {
                return Err(Broken);
            }
            if let Some((k, bytes)) = c.cut {
                if k == n {
                    f(&mut c, bytes.min(len));
                    c.dead = true;
                    return Err(Broken);
                }
            }
            f(&mut c, len);
            c.stall_mut == Some(n)
        };
        if stall {
            std::future::pending::<()>().await;
        }
        Ok(())
    }
}

impl<const R: usize, const W: usize, const E: usize> NorFlash for Flash<R, W, E> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = E;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), Broken> {
        let (f, t) = (from as usize, to as usize);
        if f % E != 0 || t % E != 0 || f >= t || t > self.capacity() {
            self.0.borrow_mut().bad = Some(format!("bad erase {f:#x}..{t:#x}"));
            return Err(Broken);
        }
        self.mutate(
            |c, n| {
                c.mem[f..f + n].fill(0xFF);
                for u in f / W..(f + n) / W {
                    c.prog[u] = 0;
                }
                c.erases.push(from / E as u32);
            },
            t - f,
        )
        .await
    }
    async fn write(&mut self, offset: u32, bytes: &[u8]) -> Result<(), Broken> {
        let (o, l) = (offset as usize, bytes.len());
        if o % W != 0 || l % W != 0 || l == 0 || o + l > self.capacity() {
            self.0.borrow_mut().bad = Some(format!("bad program {o:#x}+{l}"));
            return Err(Broken);
        }
        self.mutate(
            |c, n| {
                for u in 0..n.div_ceil(W) {
                    let k = o / W + u;
                    if (n >= (u + 1) * W) && bytes[u * W..(u + 1) * W].iter().any(|b| *b != 0xFF) {
                        c.prog[k] += 1;
                        if c.prog[k] > c.max_prog {
                            c.bad = Some(format!("unit {:#x} programmed {} times", k * W, c.prog[k]));
                        }
                    }
                }
                for i in 0..n {
                    if bytes[i] & !c.mem[o + i] != 0 && bytes[i] != 0xFF {
                        c.bad = Some(format!("program sets bits at {:#x}", o + i));
                    }
                    c.mem[o + i] &= bytes[i];
                }
            },
            l,
        )
        .await
    }
}
impl<const R: usize, const W: usize, const E: usize> MultiwriteNorFlash for Flash<R, W, E> {}

/// Poll to completion; None if the future stalls (it is dropped then, like a cancelled operation)
pub fn run<F: Future>(f: F) -> Option<F::Output> {
    let mut f = pin!(f);
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}

#[repr(align(8))]
pub struct Aligned<const N: usize>(pub [u8; N]);
