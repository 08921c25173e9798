//! Ring engine: BufferedQueue (P19) and SharedRamRing with interrupts (P20) against a two-stage FIFO.
//! The model is the set of all (flash list, RAM list) pairs that some order of the task's steps and the
//! interrupts allows; results, counters and fresh reads of the flash remove pairs. No pair left = violation.
use crate::common::{self, DRY, cur, gen_fault, new_core};
use crate::mapeng::short;
use crate::ops::*;
use crate::queueeng;
use simcore::api::{CacheCfg, DynRing, E, Ev, TaskKind};
use simcore::case::{Case, Op};
use simcore::exec::Out;
use simcore::flash::{CoreRef, Fault, FaultKind, Geo};
use simcore::isr;
use simcore::layout;
use simcore::payload::{Buf, payload};
use simcore::rng::Rng;
use simcore::runner::{RunStats, Violation, op, viol};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashSet};
use std::rc::Rc;

pub const RINGS: &[usize] = &[5, 16, 61, 300, 65_700];
/// indices into cur::GEOS of what the ring drivers are compiled for
const RGEOS: [i64; 5] = [1, 0, 4, 9, 12];

type Id = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Ph {
    /// before looking for the next item; number of items moved so far
    Idle(u32),
    /// the item was read from RAM and is being written to flash
    In(Id, u32),
    /// found the RAM empty
    Done(u32),
    /// the buffer cannot hold the oldest item
    Small(usize),
    Full,
    TooBig,
    /// a flash access failed or the task was cut off
    Fault,
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct St {
    applied: u32,
    ph: Ph,
    /// without what overwriting pushes dropped
    flash: Vec<Id>,
    /// pushes that may have dropped something
    pushes: u32,
    /// the newest item in flash was pushed by this operation
    own_last: bool,
    ring: Vec<Id>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Prog {
    Enq { id: Id, discard: bool, res: bool },
    One,
    All,
    Task,
    /// drain, then pop (true) or peek
    DrainRead(bool),
    /// pop (true) or peek, flash first
    Read(bool),
    Nothing,
}

#[derive(Clone)]
struct Event {
    id: Id,
    discard: bool,
    res: bool,
    start: u32,
    end: u32,
}

#[derive(Clone, PartialEq, Debug)]
enum O {
    Enq,
    Moved(bool),
    Unit,
    Item(Option<Vec<u8>>),
    Err(E),
    Cut,
    Idle,
}

struct Ring<'a> {
    c: &'a Case,
    g: Geo,
    n: usize,
    core: CoreRef,
    d: Box<dyn DynRing>,
    shared: bool,
    cache: CacheCfg,
    items: Vec<Vec<u8>>,
    cands: Vec<(Vec<Id>, Vec<Id>)>,
    /// is a signal pending (None: unknown)
    sig: Option<bool>,
    /// a signal was consumed without draining everything
    stale: bool,
    may_sleep: bool,
    disturbed: bool,
    overflow: bool,
    clock: Rc<RefCell<u32>>,
}

fn open(core: &CoreRef, cache: CacheCfg, n: usize, shared: bool) -> Box<dyn DynRing> {
    if shared { drv7::open(core, cache, n) } else { drv6::open(core, cache, n) }.expect("ring driver is not compiled in")
}

impl Ring<'_> {
    /// What an interrupted push used up on the only page comes back only through a push that may overwrite
    fn blocked(&self) -> bool {
        self.g.pages == 1 && self.disturbed
    }

    fn ring_used(&self, r: &[Id]) -> usize {
        r.iter().map(|i| 2 + self.items[*i as usize].len()).sum()
    }

    fn enq(&self, ring: &[Id], id: Id, discard: bool) -> Option<Vec<Id>> {
        let len = self.items[id as usize].len();
        if len > 65535 || 2 + len > self.n {
            return None;
        }
        let mut r = ring.to_vec();
        if self.ring_used(&r) + 2 + len > self.n {
            if !discard {
                return None;
            }
            while self.ring_used(&r) + 2 + len > self.n {
                r.remove(0);
            }
        }
        r.push(id);
        Some(r)
    }

    /// `flash` with everything overwriting pushes may have dropped
    fn suffixes(&self, s: &St, ow: bool) -> Vec<Vec<Id>> {
        let mut v = vec![];
        let mut sum = 0;
        for j in 0..=s.flash.len() - usize::from(s.own_last) {
            if j > 0 {
                sum += self.g.item_size(self.items[s.flash[j - 1] as usize].len() as u32);
                if !ow || sum > self.g.page_data() * s.pushes {
                    break;
                }
            }
            v.push(s.flash[j..].to_vec());
        }
        v
    }

    /// One step of the task. `fault`: a flash access failed or the task was cut off during this operation
    fn task_steps(&self, s: &St, p: Prog, buf: usize, ow: bool, fault: bool) -> Vec<St> {
        let mut v = vec![];
        let to = |ph: Ph| St { ph, ..s.clone() };
        match (&s.ph, p) {
            (Ph::Idle(_), Prog::Enq { id, discard, res }) => match self.enq(&s.ring, id, discard) {
                Some(r) if res => v.push(St { ph: Ph::Done(0), ring: r, ..s.clone() }),
                None if !res => v.push(to(Ph::Done(0))),
                _ => {}
            },
            (Ph::Idle(_), Prog::Nothing | Prog::Read(_)) => v.push(to(Ph::Done(0))),
            (Ph::Idle(1), Prog::One) => {}
            (Ph::Idle(n), _) => match s.ring.first() {
                None => v.push(to(Ph::Done(*n))),
                Some(h) => {
                    let len = self.items[*h as usize].len();
                    v.push(to(if len <= buf { Ph::In(*h, *n) } else { Ph::Small(len) }));
                }
            },
            (Ph::In(h, n), _) => {
                let big = self.items[*h as usize].len() > self.g.max_item() as usize;
                let mut ring = s.ring.clone();
                if ring.first() == Some(h) {
                    ring.remove(0);
                }
                if big {
                    v.push(to(Ph::TooBig));
                } else {
                    let n = if p == Prog::One { n + 1 } else { 0 };
                    let mut flash = s.flash.clone();
                    flash.push(*h);
                    v.push(St { applied: s.applied, ph: Ph::Idle(n), flash, pushes: s.pushes + 1, own_last: true, ring });
                    if !ow {
                        v.push(to(Ph::Full));
                    }
                }
                if fault {
                    v.push(St { ph: Ph::Fault, pushes: s.pushes + 1, own_last: false, ..s.clone() });
                    if !big {
                        let mut flash = s.flash.clone();
                        flash.push(*h);
                        v.push(St { ph: Ph::Fault, flash, pushes: s.pushes + 1, own_last: true, ..s.clone() });
                    }
                }
            }
            (Ph::Done(n), Prog::Task) => v.push(to(Ph::Idle(*n))),
            _ => {}
        }
        v
    }

    /// All (flash, ring) pairs the operation may have left given its result
    fn outcomes(&self, s: &St, p: Prog, o: &O, buf: usize, fault: bool) -> Vec<(Vec<Id>, Vec<Id>)> {
        let same = || vec![(s.flash.clone(), s.ring.clone())];
        let ok = |b: bool| if b { same() } else { vec![] };
        let data = |i: &Id| &self.items[*i as usize];
        let head_too_big = || s.flash.first().is_some_and(|h| data(h).len().next_multiple_of(self.g.word() as usize) > buf);
        let drained = matches!(s.ph, Ph::Done(_) | Ph::Small(_) | Ph::Full);
        let rm_flash = || (s.flash[1..].to_vec(), s.ring.clone());
        match (p, o) {
            (Prog::Enq { .. }, O::Enq) | (Prog::Nothing, O::Unit) => ok(matches!(s.ph, Ph::Done(_))),
            (Prog::One, O::Moved(true)) => ok(s.ph == Ph::Idle(1)),
            (Prog::One, O::Moved(false)) => ok(s.ph == Ph::Done(0)),
            (Prog::All, O::Unit) => ok(matches!(s.ph, Ph::Done(_))),
            // a task whose signal was consumed earlier waits for the next one
            (Prog::Task, O::Idle) => ok(matches!(s.ph, Ph::Done(_)) || (self.may_sleep && matches!(s.ph, Ph::Idle(_)))),
            (Prog::One | Prog::All | Prog::Task, O::Err(e)) => match e {
                E::BufTooSmall(n) => ok(s.ph == Ph::Small(*n)),
                E::Full => ok(s.ph == Ph::Full),
                E::TooBig => ok(s.ph == Ph::TooBig),
                E::Storage | E::Corrupted => ok(fault && s.ph == Ph::Fault),
                _ => vec![],
            },
            (Prog::One | Prog::All | Prog::Task, O::Cut) => ok(fault && s.ph == Ph::Fault),
            (Prog::DrainRead(pop), O::Item(Some(d))) if drained => match s.flash.first() {
                Some(h) if data(h) == d => {
                    if pop {
                        vec![rm_flash()]
                    } else {
                        same()
                    }
                }
                _ => vec![],
            },
            (Prog::DrainRead(_), O::Item(None)) => ok(s.flash.is_empty() && matches!(s.ph, Ph::Done(_))),
            (Prog::DrainRead(pop), O::Err(_) | O::Cut) => match o {
                O::Err(E::BufTooSmall(n)) if self.disturbed && *n > buf && drained => same(),
                O::Err(E::BufTooSmall(n)) => ok((drained && head_too_big()) || (s.flash.is_empty() && s.ph == Ph::Small(*n))),
                O::Err(E::TooBig) => ok(s.ph == Ph::TooBig),
                // What an interrupted push left may take up the space until this read has got past it
                O::Err(E::Full) => ok(s.flash.is_empty() && s.ph == Ph::Full && self.disturbed),
                O::Err(E::Storage | E::Corrupted) | O::Cut if fault => {
                    if s.ph == Ph::Fault {
                        same()
                    } else if drained {
                        let mut v = same();
                        if pop && !s.flash.is_empty() {
                            v.push(rm_flash());
                        }
                        v
                    } else {
                        vec![]
                    }
                }
                _ => vec![],
            },
            (Prog::Read(pop), O::Item(Some(d))) => {
                let from_flash = !s.flash.is_empty();
                match s.flash.first().or(s.ring.first()) {
                    Some(h) if data(h) == d => {
                        if !pop {
                            same()
                        } else if from_flash {
                            vec![rm_flash()]
                        } else {
                            vec![(vec![], s.ring[1..].to_vec())]
                        }
                    }
                    _ => vec![],
                }
            }
            (Prog::Read(_), O::Item(None)) => ok(s.flash.is_empty() && s.ring.is_empty()),
            (Prog::Read(pop), O::Err(_) | O::Cut) => match o {
                // debris of an interrupted write is only known to be debris after reading it
                O::Err(E::BufTooSmall(n)) if self.disturbed && *n > buf => same(),
                O::Err(E::BufTooSmall(n)) => {
                    ok(head_too_big() || (s.flash.is_empty() && s.ring.first().is_some_and(|h| data(h).len() == *n && *n > buf)))
                }
                O::Err(E::Storage | E::Corrupted) | O::Cut if fault => {
                    let mut v = same();
                    if pop && !s.flash.is_empty() {
                        v.push(rm_flash());
                    }
                    v
                }
                _ => vec![],
            },
            _ => vec![],
        }
    }

    /// Explore all orders of task steps and interrupts
    fn explore(&mut self, p: Prog, o: &O, ev: &[Event], buf: usize, ow: bool, fault: bool) -> Vec<(Vec<Id>, Vec<Id>)> {
        let all = if ev.is_empty() { 0 } else { (1u32 << ev.len()) - 1 };
        let mut seen: HashSet<St> = HashSet::new();
        let mut todo: Vec<St> = self
            .cands
            .iter()
            .map(|(f, r)| St { applied: 0, ph: Ph::Idle(0), flash: f.clone(), pushes: 0, own_last: false, ring: r.clone() })
            .collect();
        let mut out = BTreeSet::new();
        while let Some(s) = todo.pop() {
            if !seen.insert(s.clone()) {
                continue;
            }
            if seen.len() > 20_000 {
                self.overflow = true;
                break;
            }
            if s.applied == all {
                for flash in self.suffixes(&s, ow) {
                    out.extend(self.outcomes(&St { flash, ..s.clone() }, p, o, buf, fault));
                }
            }
            for (k, e) in ev.iter().enumerate() {
                if s.applied >> k & 1 == 1 || ev.iter().enumerate().any(|(j, f)| s.applied >> j & 1 == 0 && f.end < e.start) {
                    continue;
                }
                let r = self.enq(&s.ring, e.id, e.discard);
                if r.is_some() == e.res {
                    todo.push(St { applied: s.applied | 1 << k, ring: r.unwrap_or_else(|| s.ring.clone()), ..s.clone() });
                }
            }
            todo.extend(self.task_steps(&s, p, buf, ow, fault));
        }
        if out.len() > 1500 {
            self.overflow = true;
        }
        out.into_iter().collect()
    }

    fn show(&self, l: &[Id]) -> String {
        let mut s: Vec<String> = l.iter().take(6).map(|i| short(&self.items[*i as usize])).collect();
        if l.len() > 6 {
            s.push(format!(".. {} items", l.len()));
        }
        format!("[{}]", s.join(", "))
    }

    fn describe(&self) -> String {
        let mut s: Vec<String> = self.cands.iter().take(3).map(|(f, r)| format!("flash {} RAM {}", self.show(f), self.show(r))).collect();
        if self.cands.len() > 3 {
            s.push(format!("{} more", self.cands.len() - 3));
        }
        s.join(" or ")
    }

    fn fresh_flash(&self, i: usize) -> Result<Vec<Vec<u8>>, Violation> {
        let fork = self.core.borrow().fork();
        let mut f = cur::open_queue(&fork, CacheCfg::new(0, 1));
        let mut buf = Buf::new((self.g.max_item() as usize).next_multiple_of(self.g.word() as usize));
        let mut ev = vec![];
        let r = f.iter(buf.as_mut(), 0, usize::MAX, 0, &mut ev);
        if r != Out::Done(Ok(())) || ev.last() != Some(&Ev::End) {
            return viol("recover-fail", i, format!("reading the flash with a fresh instance: {} {:?}", queueeng::out_name(&r), ev.last()));
        }
        Ok(ev.into_iter().filter_map(|e| if let Ev::Entry(d) = e { Some(d) } else { None }).collect())
    }

    fn look(&mut self, i: usize, what: &str) -> Result<(), Violation> {
        let seen = self.fresh_flash(i)?;
        let fits: Vec<_> = self
            .cands
            .iter()
            .filter(|(f, _)| f.len() == seen.len() && f.iter().zip(&seen).all(|(x, y)| self.items[*x as usize] == *y))
            .cloned()
            .collect();
        if fits.is_empty() {
            let mut s: Vec<String> = seen.iter().take(8).map(|d| short(d)).collect();
            s.push(format!("{} items", seen.len()));
            return viol("flash-differs", i, format!("after {what} the flash holds [{}], expected {}", s.join(", "), self.describe()));
        }
        let torn = (0..self.g.pages).any(|p| layout::page_state(&self.core.borrow(), p) == layout::PState::Torn);
        if !torn {
            self.cands = fits;
        }
        Ok(())
    }

    fn counts(&mut self, i: usize, what: &str) -> Result<(), Violation> {
        let k = match self.d.counts() {
            Out::Done(k) => k,
            o => return viol("panic", i, format!("counters after {what}: {o:?}")),
        };
        let fits: Vec<_> = self
            .cands
            .iter()
            .filter(|(_, r)| {
                let used = self.ring_used(r);
                k.capacity == self.n
                    && k.free == self.n - used
                    && k.pending == r.len()
                    && k.used.is_none_or(|u| u == used)
                    && k.oldest.as_ref().is_none_or(|o| *o == r.first().map(|h| self.items[*h as usize].len()))
            })
            .cloned()
            .collect();
        if fits.is_empty() {
            return viol("counters", i, format!("after {what} the counters are {k:?}, expected {}", self.describe()));
        }
        self.cands = fits;
        Ok(())
    }

    fn lose_ram(&mut self) {
        for x in &mut self.cands {
            x.1.clear();
        }
        self.sig = Some(false);
        self.stale = false;
    }

    fn step(&mut self, i: usize, o: &Op, st: &mut RunStats) -> Result<(), Violation> {
        let name = NAMES[o.k as usize];
        match o.k {
            RESTART => {
                if o.a[0] == 0 {
                    self.d.rewrap();
                } else {
                    self.d = open(&self.core, self.cache, self.n, self.shared);
                }
                self.lose_ram();
                return self.counts(i, name);
            }
            VERIFY => return self.look(i, "nothing"),
            _ => {}
        }
        // The payloads: the operation's own, those of its interrupts and of interrupts while idle
        let own = self.items.len() as Id;
        if o.k == ENQUEUE {
            self.items.push(payload(o.a[1] as u32, o.a[0].max(0) as usize));
        }
        let mut irqs: Vec<(Fault, Id, bool)> = vec![];
        for (j, f) in o.f.iter().enumerate() {
            if f.kind == FaultKind::Isr && self.shared && irqs.len() < 6 {
                let id = self.items.len() as Id;
                let len = (f.cut.unsigned_abs() >> 1) as usize;
                self.items.push(payload(1_000_000 + i as u32 * 64 + j as u32, len));
                irqs.push((*f, id, f.cut & 1 == 1));
            }
        }
        let mut idle: Vec<(Id, bool)> = vec![];
        if o.k == WAIT_TASK && self.shared {
            for j in 0..o.a[2].clamp(0, 3) {
                let id = self.items.len() as Id;
                let len = (o.a[3].unsigned_abs() >> (8 * j)) as usize & 0x7F;
                self.items.push(payload(1_000_000 + i as u32 * 64 + 50 + j as u32, len));
                idle.push((id, o.a[3] >> (8 * j + 7) & 1 == 1));
            }
        }
        let blen = if o.a[0] < 0 { self.n.max(self.g.max_item() as usize).next_multiple_of(self.g.word() as usize) } else { o.a[0] as usize };
        let ow = o.a[1] & 1 == 1;
        let exec = |d: &mut dyn DynRing, idle_fn: &mut dyn FnMut() -> bool, data: &[u8]| -> (Prog, Out<O>) {
            let mut buf = Buf::new(if o.k == ENQUEUE { 0 } else { blen });
            let b = buf.as_mut();
            let conv = |r: Result<Option<Vec<u8>>, E>| match r {
                Ok(v) => O::Item(v),
                Err(e) => O::Err(e),
            };
            match o.k {
                ENQUEUE => {
                    let r = d.enqueue(data, o.a[2] & 1 == 1);
                    let res = r == Out::Done(true);
                    (Prog::Enq { id: own, discard: o.a[2] & 1 == 1, res }, r.map(|_| O::Enq))
                }
                DRAIN_ONE => (Prog::One, d.drain_one(b, ow).map(|r| r.map_or_else(O::Err, O::Moved))),
                DRAIN_ALL => (Prog::All, d.drain_all(b, ow).map(|r| r.map_or_else(O::Err, |()| O::Unit))),
                RING_POP => (if self.shared { Prog::DrainRead(true) } else { Prog::Read(true) }, d.pop(b, ow).map(conv)),
                RING_PEEK => (if self.shared { Prog::DrainRead(false) } else { Prog::Read(false) }, d.peek(b, ow).map(conv)),
                WAIT_TASK if self.shared => {
                    let kind = match (o.a[1] >> 1) % 3 {
                        0 => TaskKind::WaitAndDrainAll,
                        1 => TaskKind::WaitThenDrainAll,
                        _ => TaskKind::WaitThenDrainOne,
                    };
                    (Prog::Task, d.task(kind, b, ow, idle_fn).map(|r| r.map_or(O::Idle, O::Err)))
                }
                WAIT if self.shared => (Prog::Nothing, d.wait_once().map(O::Moved)),
                _ => (Prog::Nothing, Out::Done(O::Unit)),
            }
        };
        // Where relative positions point to is found by a dry run on a copy
        let dry = irqs.iter().any(|x| x.0.n >= DRY) || o.f.iter().any(|f| f.n >= DRY);
        let mut points = 1;
        let mut faults: Vec<Fault> = o.f.iter().filter(|f| f.kind != FaultKind::Isr).copied().collect();
        if dry && o.k != ENQUEUE {
            let fork = self.core.borrow().fork();
            let mut d = open(&fork, CacheCfg::new(0, 1), self.n, self.shared);
            let had = self.cands[0].1.clone();
            for id in &had {
                let _ = d.enqueue(&self.items[*id as usize], false);
            }
            isr::begin(vec![], Rc::new(|_| ()));
            exec(&mut *d, &mut || false, &[]);
            points = isr::end().max(1);
            let f = fork.borrow();
            for x in &mut faults {
                if x.n >= DRY {
                    let total = if matches!(x.kind, FaultKind::Power | FaultKind::MutError | FaultKind::MutCancel) { f.muts } else { f.calls };
                    x.n = (x.n - DRY) % total.max(1);
                }
            }
        } else if dry {
            points = 2;
        }
        let pending: Vec<(i64, usize)> =
            irqs.iter().enumerate().map(|(j, x)| (if x.0.n >= DRY { (x.0.n - DRY) % points } else { x.0.n }, j)).collect();
        let log: Rc<RefCell<Vec<Event>>> = Rc::default();
        let depth_hits: Rc<RefCell<u32>> = Rc::default();
        let handler: Rc<dyn Fn(usize)> = {
            let (log, clock, enq) = (log.clone(), self.clock.clone(), self.d.isr());
            let specs: Vec<(Id, bool, Vec<u8>)> = irqs
                .iter()
                .map(|x| (x.1, x.2))
                .chain(idle.iter().copied())
                .map(|(id, d)| (id, d, self.items[id as usize].clone()))
                .collect();
            let tick = move || {
                let mut c = clock.borrow_mut();
                *c += 1;
                *c
            };
            let deep = depth_hits.clone();
            let active = RefCell::new(0u32);
            Rc::new(move |j| {
                let Some(enq) = &enq else { return };
                let (id, discard, data) = &specs[j];
                let start = tick();
                *active.borrow_mut() += 1;
                if *active.borrow() > 1 {
                    *deep.borrow_mut() += 1;
                }
                let res = enq(data, *discard);
                *active.borrow_mut() -= 1;
                let end = tick();
                log.borrow_mut().push(Event { id: *id, discard: *discard, res, start, end });
            })
        };
        self.core.borrow_mut().begin_op(&faults);
        let n_irq = irqs.len();
        let mut idle_left = idle.len();
        let idle_handler = handler.clone();
        let n_idle = idle.len();
        let own_data = if o.k == ENQUEUE { self.items[own as usize].clone() } else { vec![] };
        isr::begin(pending, handler);
        // the driver has to be borrowed apart from the model for the call
        let mut d = std::mem::replace(&mut self.d, Box::new(NoRing));
        let (prog, r) = exec(
            &mut *d,
            &mut || {
                if idle_left == 0 {
                    return false;
                }
                let j = n_irq + n_idle - idle_left;
                idle_left -= 1;
                idle_handler(j);
                true
            },
            &own_data,
        );
        self.d = d;
        isr::end();
        let ev = log.borrow().clone();
        let fired = {
            let mut core = self.core.borrow_mut();
            st.log(|| {
                let e: Vec<String> = ev
                    .iter()
                    .map(|e| format!("irq enqueue {} discard {} -> {}", short(&self.items[e.id as usize]), e.discard, e.res))
                    .collect();
                let rs = match &r {
                    Out::Done(O::Item(Some(d))) => format!("item {}", short(d)),
                    r => format!("{r:?}"),
                };
                format!("op {i}: {} -> {rs} {e:?}", simcore::case::op_text(o, NAMES))
            });
            st.account(&mut core, o.k);
            core.fired.clone()
        };
        if *depth_hits.borrow() > 0 {
            st.hit("nested_interrupts");
        }
        for e in &ev {
            st.hit(if e.res { "irq_accepted" } else { "irq_refused" });
            st.sites.insert(simcore::rng::mix(u64::from(o.k) << 32 ^ o.f.iter().find(|f| f.kind == FaultKind::Isr).map_or(0, |f| f.n as u64)));
        }
        if !ev.is_empty() {
            st.flash.fired[FaultKind::Isr as usize] += ev.len() as u64;
            if self.shared {
                st.nontrivial = true;
            }
        }
        let hard = !fired.is_empty();
        if hard {
            self.disturbed = true;
            match fired[0].kind {
                FaultKind::Power => st.hit("power_loss"),
                FaultKind::Cancel | FaultKind::MutCancel => st.hit("cancelled_op"),
                _ => st.hit("failed_access"),
            }
        }
        let outcome = match &r {
            Out::Panicked(m) => return viol("panic", i, format!("{name} panicked: {m}")),
            Out::Hung => return viol("hang", i, format!("{name} did not come to an end")),
            Out::PowerLost | Out::Cancelled => O::Cut,
            Out::Done(o) => o.clone(),
        };
        let accepted = ev.iter().any(|e| e.res);
        // Signals
        let mut model_outcome = outcome.clone();
        if o.k == WAIT && self.shared {
            let O::Moved(ready) = outcome else { unreachable!() };
            model_outcome = O::Unit;
            if accepted && !ready {
                return viol("lost-wakeup", i, "wait was not woken by an interrupt that enqueued an item".to_string());
            }
            match self.sig {
                Some(true) if !ready => return viol("lost-wakeup", i, "wait does not return although an item was enqueued since the last wait".to_string()),
                Some(false) if ready && !accepted => return viol("false-wakeup", i, "wait returned although nothing was enqueued since the last wait".to_string()),
                _ => {}
            }
            self.sig = if accepted { None } else { Some(false) };
            if ready {
                self.stale = true;
                st.hit("wait_ready");
            }
        }
        self.may_sleep = self.stale && !accepted;
        let fits = self.explore(prog, &model_outcome, &ev, blen, ow, hard);
        if self.overflow {
            return Ok(());
        }
        if fits.is_empty() {
            let e: Vec<String> = ev
                .iter()
                .map(|e| format!("interrupt enqueues {} ({}) {}", short(&self.items[e.id as usize]), if e.discard { "discard oldest" } else { "or error" }, if e.res { "accepted" } else { "refused" }))
                .collect();
            let rs = match &r {
                Out::Done(O::Item(Some(d))) => format!("item {}", short(d)),
                Out::Done(O::Enq) => format!("enqueue of {} {}", short(&self.items[own as usize]), if matches!(prog, Prog::Enq { res: true, .. }) { "accepted" } else { "refused" }),
                r => format!("{r:?}"),
            };
            return viol("result", i, format!("{name} (buffer {blen}, overwrite {ow}) gave {rs} {e:?}; before: {}", self.describe()));
        }
        if prog == Prog::Task {
            match (&outcome, &r) {
                (O::Idle, _) => {
                    let must = accepted || !self.stale;
                    if must && fits.iter().all(|x| !x.1.is_empty()) {
                        return viol("lost-wakeup", i, format!("the system is idle but RAM still holds {} items", fits[0].1.len()));
                    }
                    if accepted {
                        self.stale = false;
                    }
                    self.sig = Some(false);
                    st.hit("task_idle");
                }
                _ => {
                    self.sig = None;
                    self.stale = true;
                    st.hit("task_failed");
                }
            }
        } else if o.k != WAIT && (accepted || matches!(prog, Prog::Enq { res: true, .. })) {
            self.sig = Some(true);
            self.stale = false;
        }
        let before = std::mem::replace(&mut self.cands, fits);
        match &outcome {
            O::Enq => match prog {
                Prog::Enq { res: false, .. } => st.hit("enqueue_refused"),
                _ if self.cands[0].1.len() <= before[0].1.len() => st.hit("enqueue_evicted"),
                _ => {}
            },
            O::Err(E::Full) => {
                st.hit("drain_refused_full");
            }
            O::Err(E::BufTooSmall(_)) => st.hit("rejected_buffer"),
            O::Err(E::TooBig) => st.hit("rejected_too_big"),
            O::Moved(true) => st.hit("drained_one"),
            O::Item(Some(_)) => {
                st.hit("item_read");
                if !self.shared {
                    st.nontrivial = true;
                }
            }
            _ => {}
        }
        if matches!(r, Out::PowerLost) {
            self.d = open(&self.core, self.cache, self.n, self.shared);
            self.lose_ram();
        }
        self.counts(i, name)?;
        if outcome == O::Err(E::Full) && ev.is_empty() && !hard {
            // A plain queue on the same flash has to refuse the item as well. But a read gave back the space if there was
            // no item in flash
            let read = matches!(prog, Prog::DrainRead(_));
            let fork = self.core.borrow().fork();
            let mut f = cur::open_queue(&fork, CacheCfg::new(0, 1));
            if let Some(h) = self.cands[0].1.first() {
                let data = Buf::from(&self.items[*h as usize]);
                let r = f.push(data.as_ref(), false);
                if read && self.g.pages > 1 {
                    st.hit("space_given_back");
                    if r != Out::Done(Ok(())) {
                        return viol("full-stuck", i, format!("the flash holds nothing, but after {name} an item still doesn't fit: {r:?}"));
                    }
                } else if r == Out::Done(Ok(())) {
                    return viol("full-early", i, format!("{name} refused as full an item that fits"));
                }
            }
        }
        if hard || !ev.is_empty() || self.cands.len() > 1 || (i as i64 + self.c.p("geo")) % 3 == 0 {
            self.look(i, name)?;
        }
        Ok(())
    }

    fn finish(&mut self, st: &mut RunStats) -> Result<(), Violation> {
        let i = self.c.ops.len();
        self.look(i, "the last operation")?;
        if self.shared && self.c.p("endtask") == 1 {
            // Idle until one more interrupt; everything that fits has to be in flash afterwards
            self.step(i, &op(WAIT_TASK, [-1, 1, 1, 1]), st)?;
        }
        let mut left = self.cands.iter().map(|x| x.0.len() + x.1.len()).max().unwrap_or(0) * 2 + 2;
        loop {
            if self.overflow {
                return Ok(());
            }
            let big = self.cands.iter().any(|x| x.1.iter().any(|h| self.items[*h as usize].len() > self.g.max_item() as usize));
            if big && self.shared {
                // can never reach the flash
                return Ok(());
            }
            let total = |s: &Self| s.cands.iter().map(|x| x.0.len() + x.1.len()).max().unwrap_or(0);
            let before = total(self);
            self.step(i, &op(RING_POP, [-1, 0, 0, 0]), st)?;
            if before == 0 || total(self) == 0 {
                break;
            }
            if self.blocked() && total(self) == before {
                return Ok(());
            }
            if left == 0 {
                return viol("hang", i, "popping everything does not come to an end".to_string());
            }
            left -= 1;
        }
        st.hit("drained_out");
        Ok(())
    }
}

struct NoRing;
impl DynRing for NoRing {
    fn enqueue(&mut self, _: &[u8], _: bool) -> Out<bool> {
        unreachable!()
    }
    fn drain_one(&mut self, _: &mut [u8], _: bool) -> Out<Result<bool, E>> {
        unreachable!()
    }
    fn drain_all(&mut self, _: &mut [u8], _: bool) -> Out<Result<(), E>> {
        unreachable!()
    }
    fn pop(&mut self, _: &mut [u8], _: bool) -> Out<Result<Option<Vec<u8>>, E>> {
        unreachable!()
    }
    fn peek(&mut self, _: &mut [u8], _: bool) -> Out<Result<Option<Vec<u8>>, E>> {
        unreachable!()
    }
    fn counts(&mut self) -> Out<simcore::api::Counts> {
        unreachable!()
    }
    fn rewrap(&mut self) {}
    fn isr(&self) -> Option<simcore::api::Enqueue> {
        None
    }
    fn task(&mut self, _: TaskKind, _: &mut [u8], _: bool, _: &mut dyn FnMut() -> bool) -> Out<Option<E>> {
        unreachable!()
    }
    fn wait_once(&mut self) -> Out<bool> {
        unreachable!()
    }
}

pub fn run(c: &Case, st: &mut RunStats) -> Result<(), Violation> {
    isr::end();
    let core = new_core(c, st.log.is_some()).shared();
    let n = RINGS[(c.p("ring").max(0) as usize).min(RINGS.len() - 1)];
    let shared = c.p("shared") == 1;
    let cache = CacheCfg::new((c.p("cache") & 1) as u8, 1);
    let d = open(&core, cache, n, shared);
    let mut s = Ring {
        c,
        g: common::geo(c),
        n,
        core,
        d,
        shared,
        cache,
        items: vec![],
        cands: vec![(vec![], vec![])],
        sig: Some(false),
        stale: false,
        may_sleep: false,
        disturbed: false,
        overflow: false,
        clock: Rc::default(),
    };
    st.log(|| format!("geometry {:?} cache {:?} ring {n} shared {shared}", s.g, s.cache));
    for (i, o) in c.ops.iter().enumerate() {
        s.step(i, o, st)?;
        if s.overflow {
            st.hit("model_overflow");
            break;
        }
    }
    if !s.overflow {
        s.finish(st)?;
    }
    st.absorb_core(&s.core.borrow());
    Ok(())
}

pub fn generate(prop: &str, rng: &mut Rng, c: &mut Case) {
    use FaultKind::*;
    let shared = prop == "P20";
    c.set("eng", 2);
    c.set("shared", i64::from(shared));
    let mut gi = rng.weighted(&[40, 25, 20, 8, 0]);
    let mut ring = rng.weighted(&[8, 34, 36, 14, 0]);
    let huge = !shared && rng.chance(4);
    if huge {
        gi = 4;
        ring = 4;
    }
    c.set("geo", RGEOS[gi]);
    c.set("ring", ring as i64);
    c.set("pages", if huge { 2 } else { *rng.pick(&[1, 2, 2, 3, 3, 4, 6]) });
    c.set("base", rng.range(0, 2));
    c.set("cache", rng.range(0, 1));
    c.set("yields", if rng.chance(200) { rng.range(1, 2) } else { 0 });
    c.set("multi", 1);
    c.set("endtask", rng.range(0, 1));
    let g = common::geo(c);
    let n = RINGS[ring] as i64;
    let cap = (n - 2).min(i64::from(g.max_item()));
    let fault = match (prop, rng.below(3)) {
        (_, 0) => 0,
        ("P20", _) => 60,
        _ => 180,
    };
    let kinds: &[FaultKind] = if shared { &[Power, MutError, MutCancel, Error, Cancel] } else { &[Power, Power, MutError, MutCancel, Error, Cancel] };
    let isr_rate = if shared { *rng.pick(&[150u64, 400, 700]) } else { 0 };
    let discard = *rng.pick(&[0u64, 300, 700, 1000]);
    let ow = *rng.pick(&[0u64, 0, 300, 1000]);
    let small = *rng.pick(&[0u64, 60, 200]);
    let big = rng.chance(60);
    let len = |rng: &mut Rng| -> i64 {
        if huge {
            return match rng.below(6) {
                0 => rng.range(65_530, 65_540),
                1 => rng.range(65_690, 65_702),
                _ => rng.range(0, 30_000),
            };
        }
        match rng.below(20) {
            0 => 0,
            1 => cap,
            2 if big => rng.range(cap, n + 2),
            3 if !shared => rng.range(cap, n + 1).min(i64::from(g.max_item())),
            4..=9 => rng.range(0, (cap / 3).max(1)),
            10..=12 => rng.range(0, cap),
            _ => rng.range(0, 6.min(cap)),
        }
    };
    let nops = if huge { 14 } else { rng.range(15, 70) };
    let w: [u32; 9] = if shared { [36, 12, 8, 18, 3, 16, 4, 2, 2] } else { [50, 16, 10, 18, 6, 0, 0, 2, 2] };
    for i in 0..nops {
        let k = rng.weighted(&w);
        let b = if rng.chance(small) { rng.range(0, cap + 1) } else { -1 };
        let o_w = i64::from(rng.chance(ow));
        let mut o = match k {
            0 => op(ENQUEUE, [len(rng), i + 1, i64::from(rng.chance(discard)), 0]),
            1 => op(DRAIN_ONE, [b, o_w, 0, 0]),
            2 => op(DRAIN_ALL, [b, o_w, 0, 0]),
            3 => op(RING_POP, [b, o_w, 0, 0]),
            4 => op(RING_PEEK, [b, o_w, 0, 0]),
            5 => {
                let idle = rng.range(0, 3);
                let mut x = 0i64;
                for j in 0..3 {
                    x |= len(rng).min(100) << (8 * j);
                    if rng.chance(discard) {
                        x |= 0x80 << (8 * j);
                    }
                }
                op(WAIT_TASK, [b, o_w | rng.range(0, 2) << 1, idle, x])
            }
            6 => op(WAIT, [0; 4]),
            7 => op(RESTART, [rng.range(0, 1), 0, 0, 0]),
            _ => op(VERIFY, [0; 4]),
        };
        if !matches!(o.k, RESTART | VERIFY) && rng.chance(isr_rate) {
            for _ in 0..rng.weighted(&[0, 60, 25, 10]) {
                let at = if rng.chance(500) { rng.range(0, 8) } else { DRY + rng.range(0, 400) };
                let l = len(rng);
                o.f.push(Fault { kind: Isr, n: at, cut: l << 1 | i64::from(rng.chance(discard)) });
            }
        }
        if !matches!(o.k, RESTART | VERIFY | ENQUEUE | WAIT) && rng.chance(fault) {
            let k = *rng.pick(kinds);
            o.f.push(gen_fault(rng, k, g.e));
        }
        c.ops.push(o);
    }
}
