//! Queue engine: one simulated queue on one simulated flash against a reference FIFO.
//! The model is the set of all lists the flash may hold; interrupted operations add lists, observations remove them.
use simcore::api::{CacheCfg, DynQueue, E, Ev};
use crate::common::{self, GeoReq, cur, gen_fault, new_core, old, pick_geo, resolve};
use crate::mapeng::short;
use crate::ops::*;
use simcore::case::{Case, Op};
use simcore::exec::Out;
use simcore::flash::{CoreRef, FaultKind, Geo};
use simcore::layout;
use simcore::payload::{Buf, forge, payload, payload_plain};
use simcore::rng::{Rng, mix};
use simcore::runner::{RunStats, Violation, op, viol};
use std::cell::Cell;
use std::collections::BTreeSet;
use std::rc::Rc;

pub type Opener = fn(&CoreRef, CacheCfg) -> Box<dyn DynQueue>;

pub struct QItem {
    pub data: Vec<u8>,
    /// hit by a bit flip: may be missing
    pub dmg: Cell<bool>,
}
pub type Item = Rc<QItem>;
pub type List = Vec<Item>;

fn same(a: &List, b: &List) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| Rc::ptr_eq(x, y) || x.data == y.data)
}

#[derive(Clone)]
pub struct Model {
    pub cands: Vec<List>,
    pub ever: Vec<Item>,
    pub overflow: bool,
}

impl Model {
    pub fn new() -> Self {
        Model { cands: vec![vec![]], ever: vec![], overflow: false }
    }
    fn set(&mut self, v: Vec<List>) {
        let mut out: Vec<List> = vec![];
        for l in v {
            if !out.iter().any(|o| same(o, &l)) {
                out.push(l);
            }
        }
        if out.len() > 300 {
            self.overflow = true;
            out.truncate(300);
        }
        self.cands = out;
    }
    pub fn describe(&self) -> String {
        let f = |l: &List| {
            let n = l.len();
            let mut s: Vec<String> = l.iter().take(6).map(|i| short(&i.data)).collect();
            if n > 6 {
                s.push(format!(".. {n} items"));
            }
            format!("[{}]", s.join(", "))
        };
        let mut s: Vec<String> = self.cands.iter().take(4).map(f).collect();
        if self.cands.len() > 4 {
            s.push(format!("{} more possibilities", self.cands.len() - 4));
        }
        s.join(" or ")
    }
    /// Apply what a reader saw. `mask` tells which entries it popped, `open_end` that the last pop was cut off.
    fn walk(&mut self, ev: &[Ev], mask: u64, open_end: bool, commit: bool) -> Result<(), (String, String)> {
        let mut next = vec![];
        for c in &self.cands {
            walk_one(c.clone(), 0, ev, 0, mask, open_end, &mut next);
        }
        if next.is_empty() {
            let seen: Vec<Vec<u8>> = ev.iter().filter_map(|e| if let Ev::Entry(d) = e { Some(d.clone()) } else { None }).collect();
            let class = if let Some(d) = seen.iter().find(|d| !self.ever.iter().any(|i| i.data == **d)) {
                let _ = d;
                "garbage"
            } else if self.cands.iter().any(|c| subseq(&seen, c)) {
                "lost"
            } else if seen.iter().all(|d| self.cands.iter().any(|c| c.iter().any(|i| i.data == *d))) {
                "order"
            } else {
                "resurrected"
            };
            let evs: Vec<String> = ev
                .iter()
                .take(12)
                .map(|e| match e {
                    Ev::Entry(d) => short(d),
                    Ev::Popped(d) => format!("popped {}", short(d)),
                    Ev::PopErr(e) => format!("pop failed {e:?}"),
                    Ev::NextErr(e) => format!("next failed {e:?}"),
                    Ev::End => "end".into(),
                })
                .collect();
            return Err((class.into(), format!("saw [{}], expected {}", evs.join(", "), self.describe())));
        }
        if commit {
            self.set(next);
        }
        Ok(())
    }
}

fn subseq(seen: &[Vec<u8>], c: &List) -> bool {
    let mut i = 0;
    for it in c {
        if i < seen.len() && it.data == seen[i] {
            i += 1;
        }
    }
    i == seen.len()
}

/// `pos`: index in `list` of the item the reader gets next
fn walk_one(list: List, pos: usize, ev: &[Ev], entry: u32, mask: u64, open_end: bool, out: &mut Vec<List>) {
    let Some(e) = ev.first() else {
        out.push(list);
        return;
    };
    match e {
        Ev::Entry(d) => {
            let mut l = list;
            while let Some(i) = l.get(pos) {
                if i.data == *d {
                    if i.dmg.get() {
                        // or it is the damaged one that is missing and the next one looks the same
                        let mut l2 = l.clone();
                        l2.remove(pos);
                        walk_one(l2, pos, ev, entry, mask, open_end, out);
                    }
                    break;
                }
                if !i.dmg.get() {
                    return;
                }
                l.remove(pos);
            }
            if pos >= l.len() {
                return;
            }
            let popped = mask >> (entry % 64) & 1 == 1;
            match ev.get(1) {
                Some(Ev::Popped(p)) => {
                    if p == d {
                        l.remove(pos);
                        walk_one(l, pos, &ev[2..], entry + 1, mask, open_end, out);
                    }
                }
                Some(Ev::PopErr(_)) => {
                    let mut l2 = l.clone();
                    l2.remove(pos);
                    walk_one(l, pos + 1, &ev[2..], entry + 1, mask, open_end, out);
                    walk_one(l2, pos, &ev[2..], entry + 1, mask, open_end, out);
                }
                None if popped && open_end => {
                    let mut l2 = l.clone();
                    l2.remove(pos);
                    out.push(l);
                    out.push(l2);
                }
                _ => walk_one(l, pos + 1, &ev[1..], entry + 1, mask, open_end, out),
            }
        }
        Ev::End => {
            let mut l = list;
            while l.get(pos).is_some_and(|i| i.dmg.get()) {
                l.remove(pos);
            }
            if pos == l.len() {
                out.push(l);
            }
        }
        Ev::NextErr(_) => walk_one(list, pos, &ev[1..], entry, mask, open_end, out),
        Ev::Popped(_) | Ev::PopErr(_) => {}
    }
}

pub fn out_name<T: std::fmt::Debug>(r: &Out<Result<T, E>>) -> String {
    match r {
        Out::Done(Ok(v)) => format!("Ok({v:?})"),
        Out::Done(Err(e)) => format!("Err({e:?})"),
        Out::Cancelled => "cancelled".into(),
        Out::PowerLost => "power lost".into(),
        Out::Panicked(m) => format!("panicked: {m}"),
        Out::Hung => "hung".into(),
    }
}

fn qlen(c: &Case, g: &Geo, raw: i64) -> usize {
    (raw.max(0) as usize).min(c.p("maxlen").max(0) as usize).min(g.max_item() as usize)
}

pub fn value(c: &Case, tag: i64, len: usize) -> Vec<u8> {
    if c.p("plain") == 1 {
        return payload_plain(tag as u32, len);
    }
    let mut v = payload(tag as u32, len);
    forge(&[], &mut v, tag as u32, c.p("far") == 1);
    v
}

fn full_buf(c: &Case, g: &Geo) -> Buf {
    let max = if c.p("fullbuf") == 1 { usize::MAX - 64 } else { c.p("maxlen").max(0) as usize };
    Buf::new(max.min(g.max_item() as usize).next_multiple_of(g.word() as usize))
}

pub struct Outcome {
    pub res: Out<Result<(), E>>,
    pub ev: Vec<Ev>,
    pub num: Option<Option<u32>>,
}

pub fn exec_op(d: &mut dyn DynQueue, c: &Case, g: &Geo, o: &Op) -> Outcome {
    let mut out = Outcome { res: Out::Done(Ok(())), ev: vec![], num: None };
    let mut buf = full_buf(c, g);
    let unit = |ev: &mut Vec<Ev>, pop: bool, r: Out<Result<Option<Vec<u8>>, E>>| match r {
        Out::Done(Ok(v)) => {
            match v {
                Some(v) => {
                    ev.push(Ev::Entry(v.clone()));
                    if pop {
                        ev.push(Ev::Popped(v));
                    }
                }
                None => ev.push(Ev::End),
            }
            Out::Done(Ok(()))
        }
        r => r.map(|r| r.map(|_| ())),
    };
    match o.k {
        PUSH => {
            let len = if o.a[3] & 2 == 2 { o.a[0].max(0) as usize } else { qlen(c, g, o.a[0]) };
            let data = Buf::from(&value(c, o.a[1], len));
            out.res = d.push(data.as_ref(), o.a[2] & 1 == 1);
        }
        POP => out.res = unit(&mut out.ev, true, d.pop(buf.as_mut())),
        PEEK => out.res = unit(&mut out.ev, false, d.peek(buf.as_mut())),
        QITER => {
            let limit = if o.a[1] <= 0 { usize::MAX } else { o.a[1] as usize };
            out.res = d.iter(buf.as_mut(), o.a[0] as u64, limit, o.a[2].max(0) as usize, &mut out.ev);
        }
        MAX_FIT => {
            out.res = match d.max_fit() {
                Out::Done(Ok(v)) => {
                    out.num = Some(v);
                    Out::Done(Ok(()))
                }
                r => r.map(|r| r.map(|_| ())),
            }
        }
        SPACE_LEFT => {
            out.res = match d.space_left() {
                Out::Done(Ok(v)) => {
                    out.num = Some(Some(v));
                    Out::Done(Ok(()))
                }
                r => r.map(|r| r.map(|_| ())),
            }
        }
        ERASE_ALL => out.res = d.erase_all(),
        BAD_POP => {
            let mut b = Buf::new(o.a[0].max(0) as usize);
            out.res = match o.a[1] % 3 {
                0 => unit(&mut out.ev, true, d.pop(b.as_mut())),
                1 => unit(&mut out.ev, false, d.peek(b.as_mut())),
                _ => d.iter(b.as_mut(), o.a[2] as u64, usize::MAX, o.a[3].max(0) as usize, &mut out.ev),
            };
        }
        _ => unreachable!("op {}", o.k),
    }
    out
}

fn pop_mask(o: &Op) -> u64 {
    match o.k {
        POP => 1,
        QITER => o.a[0] as u64,
        BAD_POP if o.a[1] % 3 == 0 => 1,
        BAD_POP if o.a[1] % 3 == 2 => o.a[2] as u64,
        _ => 0,
    }
}

pub struct QueueSim<'a> {
    pub c: &'a Case,
    pub g: Geo,
    pub core: CoreRef,
    pub d: Box<dyn DynQueue>,
    pub m: Model,
    pub open: Opener,
    pub cache: CacheCfg,
    pub interruptions: u64,
    /// Buffer length that is enough for everything written so far
    pub enough: usize,
    pub disturbed: bool,
    pub flips: BTreeSet<usize>,
    pub flipped_markers: BTreeSet<(u32, bool)>,
    pub erases: u64,
    pub popped: u64,
    /// P21: the pinned release is at work
    pub frozen: bool,
}

fn read_all() -> Op {
    op(QITER, [0, 0, 0, 0])
}

fn bare() -> CacheCfg {
    CacheCfg::new(0, 1)
}

impl<'a> QueueSim<'a> {
    pub fn new(c: &'a Case, open: Opener, log: bool) -> Self {
        let core = new_core(c, log).shared();
        let cache = common::cache(c);
        let d = open(&core, cache);
        QueueSim {
            c,
            g: common::geo(c),
            core,
            d,
            m: Model::new(),
            open,
            cache,
            interruptions: 0,
            enough: 0,
            disturbed: false,
            flips: BTreeSet::new(),
            flipped_markers: BTreeSet::new(),
            erases: 0,
            popped: 0,
            frozen: false,
        }
    }

    pub fn power_cycle(&mut self) {
        self.d = if self.frozen { old::open_queue(&self.core, self.cache) } else { (self.open)(&self.core, self.cache) };
    }

    /// The other version takes over. The pinned release is not asked to repair, that is what later fixes are about
    fn switch(&mut self, i: usize, st: &mut RunStats) -> Result<(), Violation> {
        if self.frozen {
            self.frozen = false;
            st.hit("new_continues_old");
        } else if layout::clean(&self.core.borrow()) {
            self.frozen = true;
            st.hit("old_continues_new");
        } else {
            st.hit("switch_refused_unrepaired");
        }
        self.power_cycle();
        if mix(self.c.seed ^ i as u64) & 3 == 0 {
            self.verify_live(i, st, "after changing the version")?;
        }
        Ok(())
    }

    /// Can the pinned release read what is there now?
    fn old_reads(&mut self, i: usize, st: &mut RunStats) -> Result<(), Violation> {
        if !layout::clean(&self.core.borrow()) {
            return Ok(());
        }
        st.hit("old_reads_new");
        let fork = self.core.borrow().fork();
        let mut f = old::open_queue(&fork, bare());
        let r = exec_op(&mut *f, self.c, &self.g, &read_all());
        if r.res != Out::Done(Ok(())) || r.ev.iter().any(|e| matches!(e, Ev::NextErr(_))) {
            return viol("old-fails", i, format!("the pinned release reading everything: {} {:?}", out_name(&r.res), r.ev.last()));
        }
        let mut m2 = self.m.clone();
        m2.walk(&r.ev, 0, false, true).or_else(|(cl, ms)| viol(&cl, i, format!("the pinned release: {ms}")))
    }

    /// What does someone see who powers up on this flash image?
    fn fresh_check(&mut self, i: usize, what: &str, st: &mut RunStats) -> Result<(), Violation> {
        let fork = self.core.borrow().fork();
        let mut f = (self.open)(&fork, bare());
        let r = exec_op(&mut *f, self.c, &self.g, &read_all());
        if r.res != Out::Done(Ok(())) || r.ev.iter().any(|e| matches!(e, Ev::NextErr(_))) {
            return viol("recover-fail", i, format!("reading a fresh instance after {what}: {} {:?}", out_name(&r.res), r.ev.last()));
        }
        // Reading may erase pages that were popped completely, which changes nothing about the contents
        let repaired = (0..self.g.pages).any(|p| layout::page_state(&self.core.borrow(), p) == layout::PState::Torn);
        if let Err((cl, ms)) = self.m.walk(&r.ev, 0, false, !repaired) {
            return viol(&cl, i, format!("fresh instance after {what}: {ms}"));
        }
        if repaired {
            st.hit("repair_needed_on_fresh_read");
        }
        Ok(())
    }

    pub fn verify_live(&mut self, i: usize, st: &mut RunStats, what: &str) -> Result<(), Violation> {
        self.core.borrow_mut().begin_op(&[]);
        let r = exec_op(&mut *self.d, self.c, &self.g, &read_all());
        st.drain_core_log(&mut self.core.borrow_mut());
        self.erases = self.core.borrow().stats.erases;
        if r.res != Out::Done(Ok(())) || r.ev.iter().any(|e| matches!(e, Ev::NextErr(_))) {
            return viol("read-fail", i, format!("{what}: reading everything: {} {:?}", out_name(&r.res), r.ev.last()));
        }
        self.m.walk(&r.ev, 0, false, true).or_else(|(cl, ms)| viol(&cl, i, format!("{what}: {ms}")))
    }

    fn fanout(&mut self, i: usize, o: &Op, st: &mut RunStats) -> Result<(), Violation> {
        let tag = 900_000 + i as i64;
        let max = i64::from(self.g.max_item());
        let mut list = vec![
            op(PEEK, [0; 4]),
            op(QITER, [0, 0, 0, 0]),
            op(PUSH, [3.min(max), tag, 0, 2]),
            op(PUSH, [3.min(max), tag, 1, 2]),
            op(PUSH, [max, tag, 0, 2]),
            op(PUSH, [max, tag, 1, 2]),
            op(MAX_FIT, [0; 4]),
            op(SPACE_LEFT, [0; 4]),
            op(ERASE_ALL, [0; 4]),
        ];
        if self.c.p("multi") == 1 {
            list.push(op(POP, [0; 4]));
            list.push(op(QITER, [-1, 0, 0, 0]));
            list.push(op(QITER, [0x5555_5555, 0, 0, 0]));
        }
        for first in &list {
            let fork = self.core.borrow().fork();
            let mut sub = QueueSim {
                c: self.c,
                g: self.g,
                core: fork.clone(),
                d: (self.open)(&fork, self.cache),
                m: self.m.clone(),
                open: self.open,
                cache: self.cache,
                interruptions: self.interruptions,
                enough: self.enough,
                disturbed: true,
                flips: self.flips.clone(),
                flipped_markers: BTreeSet::new(),
                erases: 0,
                popped: 0,
                frozen: false,
            };
            // value buffers of the fan-out may be longer than those of the workload
            let c2 = self.c.with("fullbuf", 1);
            sub.c = &c2;
            let what = format!("{} as first operation after interrupted {}", NAMES[first.k as usize], NAMES[o.k as usize]);
            let wrap = |v: Violation| Violation { class: v.class, op: i, msg: format!("{what}: {}", v.msg) };
            let mut quiet = RunStats::default();
            sub.step(i, first, &mut quiet).map_err(wrap)?;
            sub.verify_live(i, &mut quiet, "afterwards").map_err(wrap)?;
            st.hit("fanout_first_ops");
        }
        Ok(())
    }

    /// Both capacity reports against what pushes on copies of the flash do
    fn capacity(&mut self, i: usize, fit: Option<u32>) -> Result<(), Violation> {
        let push = |len: u32| {
            let fork = self.core.borrow().fork();
            let mut f = (self.open)(&fork, bare());
            exec_op(&mut *f, self.c, &self.g, &op(PUSH, [i64::from(len), 777_000, 0, 2])).res
        };
        match fit {
            Some(n) => {
                let r = push(n);
                if r != Out::Done(Ok(())) {
                    return viol("max-fit-high", i, format!("find_max_fit says {n} but pushing that much: {}", out_name(&r)));
                }
                let r = push(n + 1);
                if !matches!(r, Out::Done(Err(E::Full | E::TooBig))) {
                    return viol("max-fit-low", i, format!("find_max_fit says {n} but pushing {} bytes: {}", n + 1, out_name(&r)));
                }
            }
            None => {
                let r = push(0);
                if r != Out::Done(Err(E::Full)) {
                    return viol("max-fit-low", i, format!("find_max_fit says nothing fits but pushing an empty item: {}", out_name(&r)));
                }
            }
        }
        // space_left against it, on the same state
        let s = self.ask_fork(i, SPACE_LEFT)?.unwrap_or(0);
        self.space(i, fit, s)
    }

    /// What a new instance on a copy of the flash answers
    fn ask_fork(&self, i: usize, what: u8) -> Result<Option<u32>, Violation> {
        let fork = self.core.borrow().fork();
        let mut f = (self.open)(&fork, bare());
        let r = exec_op(&mut *f, self.c, &self.g, &op(what, [0; 4]));
        r.num.ok_or(()).or_else(|()| viol("read-fail", i, format!("{}: {}", NAMES[what as usize], out_name(&r.res))))
    }

    fn space(&self, i: usize, fit: Option<u32>, s: u32) -> Result<(), Violation> {
        let f = self.d.as_ref();
        let need = fit.map_or(0, |n| f.overhead() + n);
        if s < need {
            return viol("space-low", i, format!("space_left is {s} although find_max_fit is {fit:?}"));
        }
        let total = self.g.pages * self.g.page_data();
        if s > total {
            return viol("space-high", i, format!("space_left is {s} of {total}"));
        }
        // What pushes can really use, in steps of empty items (which keep the only page from being reused)
        let step = self.d.overhead();
        if i % 3 > 0 || total / step > 300 || self.g.pages == 1 {
            return Ok(());
        }
        let fork = self.core.borrow().fork();
        let mut f = (self.open)(&fork, bare());
        let mut n = 0;
        while n <= total / step && exec_op(&mut *f, self.c, &self.g, &op(PUSH, [0, 777_000, 0, 2])).res == Out::Done(Ok(())) {
            n += 1;
        }
        // Pages that were emptied out of order count as well, but have to wait for their turn
        let core = fork.borrow();
        let waiting = (0..self.g.pages).filter(|p| layout::page_state(&core, *p) != layout::PState::Open && layout::items(&core, *p).0.iter().all(|x| x.erased)).count() as u32;
        let used = n * step;
        if s < used {
            return viol("space-low", i, format!("space_left is {s} although {n} empty items of {step} bytes fit"));
        }
        if s > used + (step - 1) * self.g.pages + waiting * self.g.page_data() {
            return viol("space-high", i, format!("space_left is {s} but only {n} empty items of {step} bytes fit, {waiting} pages are waiting for reuse"));
        }
        Ok(())
    }

    fn flip(&mut self, o: &Op, st: &mut RunStats) {
        let g = self.g;
        let (raw, bit) = (o.a[1].unsigned_abs(), o.a[2].unsigned_abs());
        self.disturbed = true;
        st.nontrivial = true;
        let mut core = self.core.borrow_mut();
        if o.a[0] == 0 {
            let page = (raw % u64::from(g.pages)) as u32;
            let end = bit & 1 == 1;
            if !self.flipped_markers.insert((page, end)) {
                return;
            }
            let w = g.word() as usize;
            let s = page as usize * g.e as usize + if end { g.e as usize - w } else { 0 };
            let b = (bit >> 1) as usize % (w * 8);
            core.mem[s + b / 8] ^= 1 << (b % 8);
            st.hit("flip_marker");
            return;
        }
        let mut all = vec![];
        for p in 0..g.pages {
            if layout::page_state(&core, p) != layout::PState::Open {
                all.extend(layout::items(&core, p).0);
            }
        }
        if all.is_empty() {
            return;
        }
        let it = all[(raw % all.len() as u64) as usize];
        let h = g.header() as usize;
        let (pos, bitpos) = match o.a[0] {
            1 => {
                if it.len == 0 {
                    return;
                }
                let b = bit as usize % (it.len * 8);
                (it.off + h + b / 8, b % 8)
            }
            2 => (it.off + (bit as usize / 8) % 4, bit as usize % 8),
            _ => (it.off + 4 + (bit as usize / 8) % 4, bit as usize % 8),
        };
        if !self.flips.insert(it.off) {
            return;
        }
        let data = core.mem[it.off + h..it.off + h + it.len].to_vec();
        let before = layout::items(&core, it.page);
        core.mem[pos] ^= 1 << bitpos;
        if o.a[0] >= 3 {
            let after = layout::items(&core, it.page);
            let want: Vec<usize> = before.0.iter().map(|f| f.off).filter(|x| *x != it.off).collect();
            let got: Vec<usize> = after.0.iter().map(|f| f.off).collect();
            if want != got {
                core.mem[pos] ^= 1 << bitpos;
                st.hit("flip_skipped_ambiguous_payload");
                return;
            }
            st.hit("flip_length");
        } else {
            st.hit(if o.a[0] == 2 { "flip_crc" } else { "flip_data" });
        }
        core.trace_hash = mix(core.trace_hash ^ pos as u64 ^ ((bitpos as u64) << 40));
        if it.erased {
            return;
        }
        for i in self.m.ever.iter().filter(|i| i.data == data) {
            i.dmg.set(true);
        }
    }

    /// Repeat a refused operation on a copy of the flash with the size that was asked for, until it gets through
    fn retry(&self, i: usize, o: &Op, mut n: usize) -> Result<(), Violation> {
        let fork = self.core.borrow().fork();
        let mut d = (self.open)(&fork, self.cache);
        let mut o = o.clone();
        loop {
            o.a[0] = n as i64;
            o.a[3] = 0;
            fork.borrow_mut().begin_op(&[]);
            let r = exec_op(&mut *d, self.c, &self.g, &o);
            let asked = r.ev.iter().find_map(|e| match e {
                Ev::NextErr(E::BufTooSmall(m)) | Ev::PopErr(E::BufTooSmall(m)) => Some(*m),
                _ => None,
            });
            let asked = if let Out::Done(Err(E::BufTooSmall(m))) = r.res { Some(m) } else { asked };
            match asked {
                Some(m) if m <= n => {
                    return viol("buffer-wrong", i, format!("{} with a buffer of {n} bytes, as asked for, is refused with BufferTooSmall({m})", NAMES[o.k as usize]));
                }
                Some(m) => n = m,
                None => return Ok(()),
            }
        }
    }

    pub fn step(&mut self, i: usize, o: &Op, st: &mut RunStats) -> Result<(), Violation> {
        let c = self.c;
        let g = self.g;
        match o.k {
            RESTART if o.a[0] == 2 => return self.switch(i, st),
            RESTART => {
                if o.a[0] == 0 {
                    self.d.reopen();
                    st.hit("reopen_with_cache");
                } else {
                    self.power_cycle();
                    st.hit("cold_restart");
                }
                return Ok(());
            }
            VERIFY => {
                self.verify_live(i, st, "live instance")?;
                if c.p("compat") == 1 && !self.frozen {
                    self.old_reads(i, st)?;
                }
                return Ok(());
            }
            MAX_FIT | SPACE_LEFT if self.frozen => return Ok(()), // known to be wrong there
            FLIP => {
                self.flip(o, st);
                if o.a[3] & 1 == 1 {
                    self.power_cycle();
                }
                return Ok(());
            }
            _ => {}
        }
        if c.p("tight") == 1 && o.k == PUSH {
            let own = if o.a[3] & 2 == 2 { o.a[0].max(0) as usize } else { qlen(c, &g, o.a[0]) };
            if own <= g.max_item() as usize {
                self.enough = self.enough.max(own.next_multiple_of(g.word() as usize));
            }
        }
        let need = self.enough;
        let mut resolved = None;
        if let Some(n) = buf_len(o.a[0], need).filter(|_| o.k == BAD_POP) {
            let mut t = o.clone();
            t.a[0] = n;
            resolved = Some(t);
        }
        let o = resolved.as_ref().unwrap_or(o);
        let mut faults = resolve(&self.core, &o.f, |fork| {
            let mut f = (self.open)(fork, bare());
            exec_op(&mut *f, c, &g, o);
        });
        if self.frozen {
            // A power loss ends the life of the pinned release, other faults are not its business
            faults.retain(|f| f.kind == FaultKind::Power);
            faults.truncate(1);
        }
        let was_frozen = self.frozen;
        // Would this push be refused without permission to overwrite?
        let may_drop = o.k == PUSH && o.a[2] & 1 == 1 && {
            let fork = self.core.borrow().fork();
            let mut f = (self.open)(&fork, bare());
            let mut o2 = o.clone();
            o2.a[2] = 0;
            let r = exec_op(&mut *f, c, &g, &o2).res;
            match r {
                Out::Done(Ok(())) => false,
                Out::Done(Err(E::Full)) => true,
                Out::Done(Err(E::TooBig)) => false,
                r => return viol("recover-fail", i, format!("push without overwrite: {}", out_name(&r))),
            }
        };
        let (healthy, erases_before) = {
            let core = self.core.borrow();
            (c.p("wear") == 1 && (0..g.pages).all(|p| layout::page_state(&core, p) != layout::PState::Torn), core.stats.erases)
        };
        let writes_before = self.core.borrow().stats.writes;
        self.core.borrow_mut().begin_op(&faults);
        let r = exec_op(&mut *self.d, c, &g, o);
        let (fired, erases, writes) = {
            let mut core = self.core.borrow_mut();
            st.log(|| format!("op {i}: {} -> {} {:?} {:?}", simcore::case::op_text(o, NAMES), out_name(&r.res), r.ev.iter().map(|e| match e { Ev::Entry(d) => format!("entry {}", short(d)), Ev::Popped(_) => "popped".into(), e => format!("{e:?}") }).collect::<Vec<_>>(), r.num));
            st.account(&mut core, o.k);
            (core.fired.clone(), core.stats.erases - erases_before, core.stats.writes - writes_before)
        };
        self.erases += erases;
        if erases > 0 {
            st.hit("ops_with_page_erase");
            if !fired.is_empty() {
                st.hit("fault_in_op_with_erase");
            }
        }
        let hard = fired.iter().any(|f| f.kind != FaultKind::Glitch && f.kind != FaultKind::Isr);
        let glitch = fired.iter().any(|f| f.kind == FaultKind::Glitch);
        if glitch {
            st.nontrivial = true;
            self.disturbed = true;
        }
        if hard {
            self.disturbed = true;
        }
        let name = NAMES[o.k as usize];
        let cut = matches!(r.res, Out::PowerLost | Out::Cancelled);
        match &r.res {
            Out::Panicked(m) => return viol("panic", i, format!("{name} panicked: {m}")),
            Out::Hung => return viol("hang", i, format!("{name} did not finish within its step budget")),
            _ => {}
        }
        // Errors that nothing explains
        let mut errs: Vec<&E> = r.ev.iter().filter_map(|e| match e { Ev::NextErr(e) | Ev::PopErr(e) => Some(e), _ => None }).collect();
        if let Out::Done(Err(e)) = &r.res {
            errs.push(e);
        }
        for e in errs {
            match e {
                E::Storage | E::Corrupted | E::Cancelled if hard => {}
                E::Full if o.k == PUSH && o.a[2] & 1 == 0 => {
                    st.hit("full_storage");
                    if o.a[3] & 2 == 2 && o.a[0] > i64::from(g.max_item()) {
                        return viol("too-big-as-full", i, format!("item of {} bytes refused as full instead of too big, the limit is {}", o.a[0], g.max_item()));
                    }
                    if !self.disturbed && !(self.frozen && g.pages == 1) && self.m.cands.iter().all(|l| l.is_empty()) {
                        return viol("full-early", i, "push refused as full although the queue is empty".to_string());
                    }
                }
                E::TooBig if o.k == PUSH && o.a[3] & 2 == 2 => {
                    if o.a[0] <= i64::from(g.max_item()) {
                        return viol("too-big-wrong", i, format!("item of {} bytes refused as too big, the limit is {}", o.a[0], g.max_item()));
                    }
                    st.hit("rejected_too_big");
                }
                E::BufTooSmall(n) if o.k == BAD_POP => {
                    let len = o.a[0].max(0) as usize;
                    if c.p("tight") == 1 && (len >= need || *n <= len || *n > need) {
                        return viol(
                            "buffer-wrong",
                            i,
                            format!("{name} with a buffer of {len} bytes is refused with BufferTooSmall({n}), although all items fit in {need}"),
                        );
                    }
                    if c.p("tight") == 1 {
                        self.retry(i, o, *n)?;
                    }
                    st.hit("rejected_buffer");
                }
                e => return viol("bad-error", i, format!("{name} returned {e:?}{}", if fired.is_empty() { "" } else { " (with an injected fault)" })),
            }
        }
        match o.k {
            PUSH => {
                let len = if o.a[3] & 2 == 2 { o.a[0].max(0) as usize } else { qlen(c, &g, o.a[0]) };
                let acked = r.res == Out::Done(Ok(()));
                if acked && len > g.max_item() as usize {
                    return viol("too-big-accepted", i, format!("push of {len} bytes accepted, the limit is {}", g.max_item()));
                }
                let refused = matches!(r.res, Out::Done(Err(E::Full | E::TooBig)));
                if !refused || may_drop {
                    let it: Item = Rc::new(QItem { data: value(c, o.a[1], len), dmg: Cell::new(false) });
                    self.m.ever.push(it.clone());
                    let mut next = vec![];
                    // A glitched read may make a page look full, and permission to overwrite was given
                    let drop_ok = may_drop || (glitch && o.a[2] & 1 == 1);
                    for l in &self.m.cands {
                        let mut sum = 0;
                        for j in 0..=l.len() {
                            if j > 0 {
                                // a damaged item may have been gone for long
                                if !l[j - 1].dmg.get() {
                                    sum += g.item_size(l[j - 1].data.len() as u32);
                                }
                                if !drop_ok || sum > g.page_data() {
                                    break;
                                }
                            }
                            let rest: List = l[j..].to_vec();
                            if !acked {
                                next.push(rest.clone());
                            }
                            if !refused {
                                let mut a = rest;
                                a.push(it.clone());
                                next.push(a);
                            }
                        }
                    }
                    self.m.set(next);
                    if may_drop {
                        st.hit("overwriting_pushes");
                    }
                }
            }
            POP | PEEK | QITER | BAD_POP => {
                let mask = pop_mask(o);
                if o.k == POP && (cut || matches!(r.res, Out::Done(Err(_)))) && hard {
                    let mut next = vec![];
                    for l in &self.m.cands {
                        next.push(l.clone());
                        for j in 0..l.len() {
                            next.push(l[j + 1..].to_vec());
                            if !l[j].dmg.get() {
                                break;
                            }
                        }
                    }
                    self.m.set(next);
                } else if let Err((cl, ms)) = self.m.walk(&r.ev, mask, cut, true) {
                    return viol(&cl, i, format!("{name}: {ms}{}", if hard { " (a flash access failed)" } else { "" }));
                }
                let n = r.ev.iter().filter(|e| matches!(e, Ev::Popped(_))).count();
                self.popped += n as u64;
            }
            ERASE_ALL => {
                if r.res != Out::Done(Ok(())) {
                    if matches!(r.res, Out::PowerLost) {
                        self.power_cycle();
                    }
                    self.core.borrow_mut().begin_op(&[]);
                    let r2 = exec_op(&mut *self.d, c, &g, o);
                    st.drain_core_log(&mut self.core.borrow_mut());
                    if r2.res != Out::Done(Ok(())) {
                        return viol("bad-error", i, format!("repeated erase_all: {}", out_name(&r2.res)));
                    }
                }
                if self.frozen {
                    self.frozen = r.res == Out::Done(Ok(()));
                    self.power_cycle(); // its caches did not follow
                }
                self.m = Model::new();
                self.flips.clear();
                self.flipped_markers.clear();
                return Ok(());
            }
            MAX_FIT if !glitch && !hard => {
                if c.p("capacity") == 1 {
                    if let Some(fit) = r.num {
                        self.capacity(i, fit)?;
                        st.hit("capacity_checked");
                    }
                }
            }
            SPACE_LEFT if !glitch && !hard && c.p("capacity") == 1 => {
                if let Some(Some(s)) = r.num {
                    let fit = self.ask_fork(i, MAX_FIT)?;
                    self.space(i, fit, s)?;
                }
            }
            _ => {}
        }
        if healthy && !hard {
            let query = matches!(o.k, MAX_FIT | SPACE_LEFT) && erases > 0;
            let read = matches!(o.k, PEEK | MAX_FIT | SPACE_LEFT) && writes > 0;
            let iter = o.k == QITER && o.a[0] == 0 && writes > 0;
            if query || read || iter {
                return viol("read-mutates", i, format!("{name} on healthy storage changed the flash"));
            }
        }
        if was_frozen && hard {
            st.hit("new_recovers_old");
            self.frozen = false;
            self.power_cycle();
        }
        if hard {
            self.interruptions += 1;
            st.nontrivial = true;
            match fired.iter().find(|f| f.kind != FaultKind::Glitch).map(|f| f.kind) {
                Some(FaultKind::Power) => st.hit("power_loss"),
                Some(FaultKind::Cancel | FaultKind::MutCancel) => st.hit("cancelled_op"),
                _ => st.hit("failed_access"),
            }
        }
        if hard || may_drop {
            self.fresh_check(i, &format!("{}{name}", if hard { "interrupted " } else { "" }), st)?;
            if hard && c.p("fanout") == 1 {
                self.fanout(i, o, st)?;
            }
        }
        if matches!(r.res, Out::PowerLost) {
            self.power_cycle();
        } else if hard && c.p("livecheck") == 1 {
            self.verify_live(i, st, "live instance after the failure")?;
        }
        if c.p("contract") == 1 {
            if let Some(m) = &self.core.borrow().contract {
                return viol("contract", i, m.clone());
            }
        }
        if c.p("wear") == 1 {
            self.wear(i, o)?;
        }
        Ok(())
    }

    fn wear(&mut self, i: usize, o: &Op) -> Result<(), Violation> {
        let core = self.core.borrow();
        let n = self.g.pages;
        let log = &core.erase_log;
        let mut count = vec![0u64; n as usize];
        let mut astray = 0;
        for (j, (p, used)) in log.iter().enumerate() {
            count[*p as usize] += 1;
            if !used {
                return viol("erase-clean", i, format!("{} erased page {p} although nothing was written to it since its last erase", NAMES[o.k as usize]));
            }
            if j > 0 && *p != (log[j - 1].0 + 1) % n {
                astray += 1;
                if astray > 2 * self.interruptions {
                    return viol("erase-order", i, format!("page {p} erased after page {}, not in cyclic order ({} interruptions so far)", log[j - 1].0, self.interruptions));
                }
            }
        }
        let (mi, ma) = (count.iter().min().unwrap(), count.iter().max().unwrap());
        if ma - mi > 1 + 2 * self.interruptions {
            return viol("wear", i, format!("erase counts {count:?} differ by more than 1 + 2 x {} interruptions", self.interruptions));
        }
        Ok(())
    }

    pub fn finish(&mut self, st: &mut RunStats) -> Result<(), Violation> {
        let i = self.c.ops.len();
        self.verify_live(i, st, "at the end, live instance")?;
        if self.c.p("compat") == 1 {
            if !self.frozen {
                self.old_reads(i, st)?;
            }
            self.frozen = false;
        }
        self.power_cycle();
        self.verify_live(i, st, "at the end, after a power cycle")?;
        // Liveness once faults have stopped
        for n in 0..2 {
            self.step(i, &op(PUSH, [2, 990_000 + n, n & 1, 0]), st)?;
        }
        self.verify_live(i, st, "at the end, after further pushes")?;
        if self.c.p("drain") == 1 && self.c.p("multi") == 1 {
            let mut left = self.m.cands.iter().map(|l| l.len()).max().unwrap_or(0) + 2;
            loop {
                let n = self.popped;
                self.step(i, &op(POP, [0; 4]), st)?;
                if self.popped == n {
                    break;
                }
                if left == 0 {
                    return viol("hang", i, "draining the queue does not come to an end".to_string());
                }
                left -= 1;
            }
            if self.g.pages > 1 || !self.disturbed {
                let max = i64::from(self.g.max_item());
                let fork = self.core.borrow().fork();
                let mut f = (self.open)(&fork, bare());
                let r = exec_op(&mut *f, self.c, &self.g, &op(PUSH, [max, 995_000, 0, 2]));
                if r.res != Out::Done(Ok(())) {
                    return viol("full-early", i, format!("after popping everything a push of {max} bytes without overwrite: {}", out_name(&r.res)));
                }
                st.hit("drained_and_refilled");
            }
        }
        Ok(())
    }
}

pub fn run(c: &Case, st: &mut RunStats) -> Result<(), Violation> {
    if c.p("lockstep") == 1 {
        return run_lockstep(c, st);
    }
    let mut s = QueueSim::new(c, cur::open_queue, st.log.is_some());
    st.log(|| format!("geometry {:?} cache {:?}", s.g, s.cache));
    for (i, o) in c.ops.iter().enumerate() {
        s.step(i, o, st)?;
        if s.m.overflow {
            st.hit("model_overflow");
            st.absorb_core(&s.core.borrow());
            return Ok(());
        }
    }
    s.finish(st)?;
    if s.erases > u64::from(s.g.pages) {
        st.hit("whole_flash_recycled");
        if c.p("trivial_ok") == 1 {
            st.nontrivial = true;
        }
    }
    st.absorb_core(&s.core.borrow());
    Ok(())
}

/// P12: the same history on instances that differ only in their cache
fn run_lockstep(c: &Case, st: &mut RunStats) -> Result<(), Violation> {
    let g = common::geo(c);
    let cfgs = [bare(), CacheCfg::new(1, 1), CacheCfg::new(2, 1), CacheCfg::new(3, 1), CacheCfg { missing: 1 + c.p("missing").max(0) as usize, ..CacheCfg::new(1, 1) }];
    let cores: Vec<CoreRef> = cfgs.iter().map(|_| new_core(c, st.log.is_some()).shared()).collect();
    let mut ds: Vec<Box<dyn DynQueue>> = cfgs.iter().zip(&cores).map(|(k, core)| cur::open_queue(core, *k)).collect();
    let mut diverged = false;
    let mut ops = c.ops.clone();
    ops.push(op(VERIFY, [0; 4]));
    ops.push(op(RESTART, [2, 0, 0, 0]));
    ops.push(op(VERIFY, [0; 4]));
    for (i, o) in ops.iter().enumerate() {
        if o.k == RESTART {
            for j in 0..ds.len() {
                match o.a[0] {
                    0 => ds[j].reopen(),
                    1 => ds[j] = cur::open_queue(&cores[j], cfgs[j]),
                    _ => ds[j] = cur::open_queue(&cores[j], bare()),
                }
            }
            continue;
        }
        let h0 = cores[0].borrow().trace_hash;
        if !diverged && cores.iter().any(|x| x.borrow().trace_hash != h0) {
            st.hit("lockstep_diverged_images");
            diverged = true;
        }
        let faults = if diverged || o.k == VERIFY {
            vec![]
        } else {
            resolve(&cores[0], &o.f, |fork| {
                let mut f = cur::open_queue(fork, bare());
                exec_op(&mut *f, c, &g, o);
            })
        };
        let real = if o.k == VERIFY { op(QITER, [0; 4]) } else { o.clone() };
        let mut base: Option<Outcome> = None;
        for j in 0..ds.len() {
            cores[j].borrow_mut().begin_op(&faults);
            let r = exec_op(&mut *ds[j], c, &g, &real);
            st.log(|| format!("op {i} cache {j}: {} -> {} {:?} {:?}", simcore::case::op_text(o, NAMES), out_name(&r.res), r.ev, r.num));
            st.account(&mut cores[j].borrow_mut(), o.k);
            match &r.res {
                Out::Panicked(m) => return viol("panic", i, format!("cache {:?}: {} panicked: {m}", cfgs[j], NAMES[o.k as usize])),
                Out::Hung => return viol("hang", i, format!("cache {:?}: {} hung", cfgs[j], NAMES[o.k as usize])),
                _ => {}
            }
            if !cores[j].borrow().fired.is_empty() {
                st.nontrivial = true;
                st.hit("lockstep_faults");
            }
            match &base {
                None => base = Some(r),
                Some(b) => {
                    if b.res != r.res || b.ev != r.ev || b.num != r.num {
                        let show = |x: &Outcome| format!("{} {} events {:?}", out_name(&x.res), x.ev.len(), x.num);
                        return viol("cache-differs", i, format!("{}: {} without cache but {} with cache {:?}", NAMES[o.k as usize], show(b), show(&r), cfgs[j]));
                    }
                }
            }
        }
        let b = base.unwrap();
        if matches!(b.res, Out::PowerLost) {
            for j in 0..ds.len() {
                ds[j] = cur::open_queue(&cores[j], cfgs[j]);
            }
        }
        if o.k == ERASE_ALL && b.res != Out::Done(Ok(())) {
            for j in 0..ds.len() {
                cores[j].borrow_mut().begin_op(&[]);
                exec_op(&mut *ds[j], c, &g, o);
            }
        }
    }
    for core in &cores {
        st.absorb_core(&core.borrow());
    }
    st.nontrivial = true;
    Ok(())
}

pub fn generate(prop: &str, rng: &mut Rng, c: &mut Case) {
    use FaultKind::*;
    const P: &[FaultKind] = &[Power];
    const LIVE: &[FaultKind] = &[Error, Cancel, MutError, MutCancel, MutError, MutCancel];
    const ALL: &[FaultKind] = &[Power, Power, Error, Cancel, MutError, MutCancel];
    let (mut fault, mut kinds, mut double) = (0u64, P, 0u64);
    // push pop peek iter max_fit space_left erase_all restart verify
    let mut w: [u32; 9] = [50, 28, 5, 7, 2, 2, 1, 4, 4];
    let mut nops = (20i64, 100i64);
    let mut max_pages = 12;
    let mut big = true;
    let mut drain = rng.chance(300);
    let mut ow = *rng.pick(&[0u64, 200, 500, 1000]);
    match prop {
        "P07" => {
            nops = (30, 180);
            max_pages = 40;
            c.set("trivial_ok", 1);
        }
        "P08" => {
            fault = 250;
        }
        "P09" => {
            fault = 300;
            kinds = LIVE;
            double = 100;
            w[3] = 14;
            c.set("livecheck", i64::from(rng.chance(500)));
        }
        "P10" => {
            fault = if rng.chance(600) { 150 } else { 0 };
            kinds = ALL;
            w = [60, 16, 2, 6, 1, 1, 1, 3, 3];
            ow = *rng.pick(&[300u64, 600, 1000]);
            c.set("trivial_ok", 1);
        }
        "P11" => {
            fault = if rng.chance(400) { 100 } else { 0 };
            kinds = ALL;
            w = [45, 25, 2, 6, 20, 4, 1, 3, 1];
            ow = *rng.pick(&[0u64, 0, 200, 600]);
            c.set("capacity", 1);
            c.set("trivial_ok", 1);
            drain = true;
        }
        "P12" => {
            fault = if rng.chance(700) { 150 } else { 0 };
            kinds = &[Power, MutError, MutCancel];
            w = [50, 26, 6, 8, 5, 5, 1, 4, 4];
            nops = (20, 80);
            max_pages = 8;
            c.set("lockstep", 1);
        }
        "P13" => {
            fault = 350;
            kinds = ALL;
            double = 50;
            nops = (10, 50);
            max_pages = 6;
            drain = rng.chance(600);
            c.set("fanout", 1);
        }
        "P14" => {
            fault = 150;
            kinds = ALL;
            c.set("contract", 1);
        }
        "P15" => {
            fault = if rng.chance(400) { 60 } else { 0 };
            kinds = if rng.chance(500) { &[Power] } else { ALL };
            w = [55, 30, 4, 6, 2, 2, 0, 2, 1];
            nops = (60, 250);
            max_pages = 10;
            c.set("wear", 1);
            c.set("trivial_ok", 1);
        }
        "P21" => {
            fault = if rng.chance(700) { 80 } else { 0 };
            kinds = ALL;
            w = [50, 26, 4, 7, 1, 1, 1, 12, 5];
            c.set("compat", 1);
            c.set("trivial_ok", 1);
        }
        "P16" => {
            big = false;
            c.set("plain", 1);
        }
        "P17" => {
            fault = 500;
            kinds = if rng.chance(500) { &[Glitch] } else { &[Glitch, Glitch, Glitch, Power, MutError, MutCancel] };
            big = false;
            c.set("far", 1);
        }
        "P18" => {
            fault = if rng.chance(500) { 100 } else { 0 };
            kinds = ALL;
            c.set("trivial_ok", 1);
            c.set("tight", 1);
            c.set("fullbuf", 1);
        }
        _ => {}
    }
    let g = pick_geo(rng, c, &GeoReq { min_pages: if prop == "P21" { 2 } else { 1 }, max_pages, big, huge: big && matches!(prop, "P07" | "P11" | "P18") });
    let big_page = g.e >= 1024;
    c.set("eng", 1);
    let maxlen = match rng.below(4) {
        0 => i64::from(g.max_item()),
        1 => rng.range(0, i64::from(g.max_item())),
        _ => (i64::from(g.page_data()) / rng.range(1, 6) - i64::from(g.header())).clamp(1, i64::from(g.max_item())),
    };
    let maxlen = if prop == "P16" { maxlen.max(6) } else { maxlen };
    c.set("maxlen", maxlen);
    let multi = rng.chance(if matches!(prop, "P10" | "P14") { 700 } else { 900 });
    c.set("multi", i64::from(multi));
    c.set("drain", i64::from(drain));
    if !multi {
        w[1] = 0;
        ow = ow.max(300);
    }
    let mut n = rng.range(nops.0, nops.1);
    if big_page {
        n += 40;
    }
    let mut phase_len = rng.range(8, 40);
    if let Some(ops) = common::vast_ops(rng, c) {
        n = ops;
        w = [60, 20, 3, 1, 1, 1, 0, 2, 1];
        phase_len *= 6;
    }
    let fill_bias = rng.range(0, 2);
    for i in 0..n {
        let phase = (i / phase_len) % 3;
        let mut wp = w;
        if multi {
            match (phase, fill_bias) {
                (0, _) => wp[1] /= 3,
                (1, 0 | 1) => wp[0] /= 3,
                _ => {}
            }
        }
        let kind = rng.weighted(&wp);
        let tag = i + 1;
        let mut len = match rng.below(10) {
            0 => 0,
            1 => maxlen,
            2..=4 => rng.range(0, maxlen),
            5 => rng.range(0, 8).min(maxlen),
            _ => rng.range(maxlen / 2, maxlen),
        };
        if prop == "P16" {
            len = len.max(5);
        }
        let mask = if !multi {
            0
        } else {
            match rng.below(5) {
                0 => 0,
                1 => -1,
                2 => (1 << rng.range(0, 20)) - 1,
                _ => rng.u64() as i64,
            }
        };
        let mut o = match kind {
            0 => op(PUSH, [len, tag, i64::from(rng.chance(ow)), 0]),
            1 => op(POP, [0; 4]),
            2 => op(PEEK, [0; 4]),
            3 => op(QITER, [mask, if rng.chance(300) { rng.range(1, 6) } else { 0 }, rng.range(0, 2), 0]),
            4 => op(MAX_FIT, [0; 4]),
            5 => op(SPACE_LEFT, [0; 4]),
            6 => op(ERASE_ALL, [0; 4]),
            7 if prop == "P21" && rng.chance(600) => op(RESTART, [2, 0, 0, 0]),
            7 => op(RESTART, [i64::from(rng.chance(500)), 0, 0, 0]),
            _ => op(VERIFY, [0; 4]),
        };
        if !matches!(o.k, RESTART | VERIFY) && rng.chance(fault) {
            let k = *rng.pick(kinds);
            o.f.push(gen_fault(rng, k, g.e));
            if rng.chance(double) {
                let k = *rng.pick(kinds);
                o.f.push(gen_fault(rng, k, g.e));
            }
        }
        if prop == "P16" && rng.chance(120) {
            let kind = rng.weighted(&[2, 4, 2, 3]) as i64;
            c.ops.push(op(FLIP, [kind, rng.range(0, 1 << 20), rng.range(0, 1 << 20), rng.range(0, 1)]));
            if rng.chance(400) {
                c.ops.push(op(VERIFY, [0; 4]));
            }
        }
        if prop == "P18" && rng.chance(300) {
            let bad = match rng.below(4) {
                0 => op(PUSH, [i64::from(g.max_item()) + rng.range(-12, 40), 500_000 + tag, i64::from(rng.chance(500)), 2]),
                k => op(BAD_POP, [if rng.chance(250) { TIGHT - if rng.chance(500) { 0 } else { rng.range(0, 8) } } else { rng.range(0, maxlen + 8) }, if multi { k as i64 } else { 1 }, if multi { mask } else { 0 }, if rng.chance(500) { 1 << 20 } else { 0 }]),
            };
            c.ops.push(bad);
            if rng.chance(400) {
                c.ops.push(op(VERIFY, [0; 4]));
            }
        }
        c.ops.push(o);
    }
}
