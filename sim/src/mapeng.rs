//! Map engine: one simulated map on one simulated flash against a reference model.
use simcore::api::{CacheCfg, DynMap, E, FILL, SKey};
use simcore::typed::LONG_KEY;
use crate::common::{self, GeoReq, cur, gen_fault, new_core, old, pick_geo, resolve};
use crate::ops::*;
use simcore::case::{Case, Op};
use simcore::exec::Out;
use simcore::flash::{CoreRef, FaultKind, Geo};
use simcore::layout;
use simcore::payload::{Buf, forge, payload, payload_plain};
use simcore::rng::{Rng, mix};
use simcore::runner::{RunStats, Violation, op, viol};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

type Val = Rc<Vec<u8>>;
pub type Opener = fn(&CoreRef, CacheCfg) -> Box<dyn DynMap>;

/// Length of the encoded key
fn klen(c: &Case, k: SKey) -> usize {
    if common::is_typed(c) { common::typed::key_lens(c)[k.id as usize] } else { k.encoded_len() }
}

#[derive(Clone)]
pub struct KeyState {
    /// What a fetch may return now. One entry unless an operation on the key was interrupted and nobody looked since.
    pub allowed: Vec<Option<Val>>,
    /// Every value passed to a store of this key since the last erase_all
    pub history: Vec<Val>,
    /// Damaged by a bit flip: any historic value or None is fine until the next store or removal
    pub damaged: bool,
}

impl KeyState {
    fn new() -> Self {
        Self { allowed: vec![None], history: vec![], damaged: false }
    }
    pub fn ok(&self, v: &Option<Vec<u8>>) -> bool {
        if self.damaged {
            return match v {
                None => true,
                Some(v) => self.history.iter().any(|h| **h == *v),
            };
        }
        self.allowed.iter().any(|a| match (a, v) {
            (None, None) => true,
            (Some(a), Some(v)) => **a == *v,
            _ => false,
        })
    }
    fn settle(&mut self, v: &Option<Vec<u8>>) {
        if !self.damaged {
            self.allowed = vec![v.as_ref().map(|v| Rc::new(v.clone()))];
        }
    }
    fn exact(&mut self, v: Option<Val>) {
        self.allowed = vec![v];
        self.damaged = false;
    }
    fn may(&mut self, v: Option<Val>) {
        if !self.allowed.contains(&v) {
            self.allowed.push(v);
        }
    }
    /// How it was when something older than everything allowed is returned
    fn describe(&self) -> String {
        let f = |v: &Option<Val>| v.as_ref().map_or("None".to_string(), |v| short(v));
        self.allowed.iter().map(f).collect::<Vec<_>>().join(" or ")
    }
}

pub fn short(v: &[u8]) -> String {
    if v.len() <= 12 { format!("{v:02x?}") } else { format!("{:02x?}..({} bytes)", &v[..12], v.len()) }
}

pub type Model = BTreeMap<u8, KeyState>;

pub fn key(c: &Case, id: i64) -> SKey {
    let id = (id.rem_euclid(c.p("keys").max(1))) as u8 & 63;
    if common::is_typed(c) {
        return SKey { id, x: 0 };
    }
    let x = match c.p("klen") {
        0 => 0,
        1 => id % 4,
        _ => (id / 2) % 3,
    };
    SKey { id, x }
}

pub fn value(c: &Case, k: SKey, tag: i64, len: usize) -> Val {
    if c.p("plain") == 1 {
        return Rc::new(payload_plain(tag as u32, len));
    }
    let mut v = payload(tag as u32, len);
    if common::is_typed(c) {
        let vt = common::cache(c).vt_of(k.id, common::typed::values(c));
        return Rc::new(common::typed::norm(c, vt, &v));
    }
    let mut kb = vec![k.id | (k.x << 6)];
    kb.extend((1..k.encoded_len()).map(|i| k.filler(i)));
    forge(&kb, &mut v, tag as u32, c.p("far") == 1);
    Rc::new(v)
}

fn vlen(c: &Case, g: &Geo, k: SKey, raw: i64) -> usize {
    (raw.max(0) as usize).min(c.p("maxlen") as usize).min((g.max_item() as usize).saturating_sub(klen(c, k)))
}

/// Buffer the documentation asks for: the longest key + value, rounded up to the word size
pub fn full_buf(c: &Case, g: &Geo) -> Buf {
    let keys = if common::is_typed(c) { 70 + common::typed::key_lens(c).iter().max().unwrap() } else { 8 };
    let max = if c.p("fullbuf") == 1 { usize::MAX - keys } else { c.p("maxlen") as usize };
    let n = (max + keys).min(g.max_item() as usize).next_multiple_of(g.word() as usize);
    Buf::new(n)
}

/// Which argument of the operation is the length of the buffer
fn buf_arg(k: u8) -> usize {
    match k {
        BAD_STORE => 3,
        BAD_ITER => 0,
        _ => 1,
    }
}

fn tight(o: &Op, need: usize) -> Option<Op> {
    if !matches!(o.k, BAD_STORE | BAD_FETCH | BAD_REMOVE | BAD_ITER) {
        return None;
    }
    let n = buf_len(o.a[buf_arg(o.k)], need)?;
    let mut o = o.clone();
    o.a[buf_arg(o.k)] = n;
    Some(o)
}

/// Effect of an operation on the model
#[derive(Clone, Copy, PartialEq)]
enum Eff {
    Acked,
    Maybe,
}

fn apply(m: &mut Model, c: &Case, g: &Geo, o: &Op, eff: Eff) {
    let set = |ks: &mut KeyState, v: Option<Val>| match eff {
        Eff::Acked => ks.exact(v),
        Eff::Maybe => ks.may(v),
    };
    match o.k {
        STORE | BAD_STORE => {
            let k = key(c, o.a[0]);
            let len = if o.k == BAD_STORE { o.a[1].max(0) as usize } else { vlen(c, g, k, o.a[1]) };
            let v = value(c, k, o.a[2], len);
            let ks = m.entry(k.id).or_insert_with(KeyState::new);
            ks.history.push(v.clone());
            set(ks, Some(v));
        }
        REMOVE => {
            let k = key(c, o.a[0]);
            set(m.entry(k.id).or_insert_with(KeyState::new), None);
        }
        BAD_REMOVE if o.a[0] >= 0 => {
            let k = key(c, o.a[0]);
            set(m.entry(k.id).or_insert_with(KeyState::new), None);
        }
        REMOVE_ALL | BAD_REMOVE => {
            for ks in m.values_mut() {
                set(ks, None);
            }
        }
        ERASE_ALL => {
            for ks in m.values_mut() {
                set(ks, None);
                if eff == Eff::Acked {
                    ks.history.clear();
                }
            }
        }
        _ => {}
    }
}

pub struct Outcome {
    pub res: Out<Result<(), E>>,
    pub fetched: Option<Option<Vec<u8>>>,
    pub entries: Vec<(SKey, Vec<u8>)>,
    pub ended: bool,
    /// What the iteration ran into and went on after
    pub errs: Vec<E>,
}

/// Run one operation on an instance
pub fn exec_op(d: &mut dyn DynMap, c: &Case, g: &Geo, o: &Op) -> Outcome {
    let mut out = Outcome { res: Out::Done(Ok(())), fetched: None, entries: vec![], ended: false, errs: vec![] };
    let mut buf = full_buf(c, g);
    if c.p("misalign") > 0 {
        buf = buf.misalign(c.p("misalign") as usize);
    }
    match o.k {
        STORE => {
            let k = key(c, o.a[0]);
            let v = value(c, k, o.a[2], vlen(c, g, k, o.a[1]));
            out.res = d.store(buf.as_mut(), k, &v, (o.a[3] & 1) as u8);
        }
        FETCH => {
            let k = key(c, o.a[0]);
            out.res = match d.fetch(buf.as_mut(), k) {
                Out::Done(Ok(v)) => {
                    out.fetched = Some(v);
                    Out::Done(Ok(()))
                }
                r => r.map(|r| r.map(|_| ())),
            };
        }
        REMOVE => out.res = d.remove(buf.as_mut(), key(c, o.a[0])),
        REMOVE_ALL => out.res = d.remove_all(buf.as_mut()),
        ITER | BAD_ITER => {
            let mut short_buf = Buf::new(o.a[0].max(0) as usize);
            let (b, limit) = if o.k == ITER {
                (buf.as_mut(), if o.a[0] == 0 { usize::MAX } else { o.a[0] as usize })
            } else {
                (short_buf.as_mut(), usize::MAX)
            };
            let r = d.iter(b, limit, o.a[1].max(0) as usize, &mut out.entries, &mut out.errs);
            if let Out::Done(Ok(e)) = &r {
                out.ended = *e;
            }
            out.res = r.map(|r| r.map(|_| ()));
        }
        ERASE_ALL => out.res = d.erase_all(),
        BAD_STORE => {
            let k = key(c, o.a[0]);
            let v = value(c, k, o.a[2], o.a[1].max(0) as usize);
            // a3: -1 / -2 failing serializer, otherwise the length of the buffer
            if o.a[3] < 0 {
                let mut b = Buf::new(v.len() + 64);
                out.res = d.store(b.as_mut(), k, &v, (1 - o.a[3]) as u8);
            } else {
                let mut b = Buf::new(o.a[3] as usize);
                out.res = d.store(b.as_mut(), k, &v, (o.a[2] & 1) as u8);
            }
        }
        BAD_FETCH => {
            let mut b = Buf::new(o.a[1].max(0) as usize);
            out.res = match d.fetch(b.as_mut(), key(c, o.a[0])) {
                Out::Done(Ok(v)) => {
                    out.fetched = Some(v);
                    Out::Done(Ok(()))
                }
                r => r.map(|r| r.map(|_| ())),
            };
        }
        BAD_REMOVE => {
            let mut b = Buf::new(o.a[1].max(0) as usize);
            out.res = if o.a[0] >= 0 { d.remove(b.as_mut(), key(c, o.a[0])) } else { d.remove_all(b.as_mut()) };
        }
        _ => unreachable!(),
    }
    out
}

/// The last entry per key must be a permitted value, all live keys must be there, every entry must have been stored.
fn check_entries(m: &mut Model, c: &Case, entries: &[(SKey, Vec<u8>)], complete: bool, settle: bool) -> Result<(), (String, String)> {
    let mut last: BTreeMap<u8, &Vec<u8>> = BTreeMap::new();
    for (k, v) in entries {
        let Some(ks) = m.get(&k.id).filter(|_| k.id < 64) else {
            return Err(("iter-foreign".into(), format!("iteration returned key {} that was never stored", k.id)));
        };
        if *k != key(c, i64::from(k.id)) || !ks.history.iter().any(|h| **h == *v) {
            return Err(("iter-foreign".into(), format!("iteration returned {k:?} = {} which was never stored", short(v))));
        }
        last.insert(k.id, v);
    }
    if complete {
        for (id, ks) in m.iter_mut() {
            let got = last.get(id).map(|v| (*v).clone());
            if !ks.ok(&got) {
                return Err((
                    "iter-wrong".into(),
                    format!("after a complete iteration key {id} is {}, expected {}", got.as_ref().map_or("absent".into(), |v| short(v)), ks.describe()),
                ));
            }
            if settle {
                ks.settle(&got);
            }
        }
    }
    Ok(())
}

fn check_fetch(m: &mut Model, c: &Case, id: i64, got: &Option<Vec<u8>>, settle: bool) -> Result<(), (String, String)> {
    let k = key(c, id);
    let ks = m.entry(k.id).or_insert_with(KeyState::new);
    if !ks.ok(got) {
        let class = match got {
            None => "lost",
            Some(v) if ks.history.iter().any(|h| **h == *v) => "stale",
            Some(_) => "garbage",
        };
        return Err((class.into(), format!("fetch of key {} returned {}, expected {}", k.id, got.as_ref().map_or("None".into(), |v| short(v)), ks.describe())));
    }
    if settle {
        ks.settle(got);
    }
    Ok(())
}

fn out_name(r: &Out<Result<(), E>>) -> String {
    match r {
        Out::Done(Ok(())) => "Ok".into(),
        Out::Done(Err(e)) => format!("Err({e:?})"),
        Out::Cancelled => "cancelled".into(),
        Out::PowerLost => "power lost".into(),
        Out::Panicked(m) => format!("panicked: {m}"),
        Out::Hung => "hung".into(),
    }
}

fn live_size(m: &Model, c: &Case, g: &Geo) -> u32 {
    m.iter()
        .map(|(id, ks)| {
            let kl = klen(c, key(c, i64::from(*id))) as u32;
            let all: Vec<u32> = if ks.damaged {
                ks.history.iter().map(|v| g.item_size(kl + v.len() as u32)).collect()
            } else {
                ks.allowed.iter().flatten().map(|v| g.item_size(kl + v.len() as u32)).collect()
            };
            all.into_iter().max().unwrap_or(0)
        })
        .sum()
}

pub struct MapSim<'a> {
    pub c: &'a Case,
    pub g: Geo,
    pub core: CoreRef,
    pub d: Box<dyn DynMap>,
    pub m: Model,
    pub open: Opener,
    pub cache: CacheCfg,
    pub interruptions: u64,
    pub flipped_markers: BTreeSet<(u32, bool)>,
    pub flips: BTreeSet<usize>,
    pub full_seen: u64,
    pub recycled: u64,
    /// P21: the pinned release is at work
    pub frozen: bool,
    /// Buffer length that is enough for everything written so far
    pub enough: usize,
}

impl<'a> MapSim<'a> {
    pub fn new(c: &'a Case, open: Opener, log: bool) -> Self {
        let core = new_core(c, log).shared();
        let cache = common::cache(c);
        let d = open(&core, cache);
        MapSim {
            c,
            g: common::geo(c),
            core,
            d,
            m: Model::new(),
            open,
            cache,
            interruptions: 0,
            enough: 0,
            flipped_markers: BTreeSet::new(),
            flips: BTreeSet::new(),
            full_seen: 0,
            recycled: 0,
            frozen: false,
        }
    }

    fn fresh_check(&mut self, i: usize, o: &Op, st: &mut RunStats) -> Result<(), Violation> {
        // What would someone see who powers up on this flash image and reads everything?
        let fork = self.core.borrow().fork();
        let mut f = (self.open)(&fork, self.cache.bare());
        let nkeys = self.c.p("keys").max(1);
        let by_iter = mix(i as u64 ^ self.c.seed) & 1 == 0;
        let mut seen: Vec<(u8, Option<Vec<u8>>)> = vec![];
        let mut m2 = self.m.clone();
        if by_iter {
            let it = op(ITER, [0; 4]);
            let r = exec_op(&mut *f, self.c, &self.g, &it);
            if !matches!(r.res, Out::Done(Ok(()))) {
                return viol("recover-fail", i, format!("iterating a fresh instance after interrupted {}: {}", NAMES[o.k as usize], out_name(&r.res)));
            }
            if let Err((cl, ms)) = check_entries(&mut m2, self.c, &r.entries, true, true) {
                return viol(&cl, i, format!("fresh instance after interrupted {}: {ms}", NAMES[o.k as usize]));
            }
            for (id, ks) in &m2 {
                seen.push((*id, ks.allowed[0].as_ref().map(|v| v.to_vec())));
            }
        } else {
            for id in 0..nkeys {
                fork.borrow_mut().begin_op(&[]);
                let r = exec_op(&mut *f, self.c, &self.g, &op(FETCH, [id, 0, 0, 0]));
                let Some(v) = r.fetched else {
                    return viol("recover-fail", i, format!("fetching key {id} from a fresh instance after interrupted {}: {}", NAMES[o.k as usize], out_name(&r.res)));
                };
                if let Err((cl, ms)) = check_fetch(&mut m2, self.c, id, &v, true) {
                    return viol(&cl, i, format!("fresh instance after interrupted {}: {ms}", NAMES[o.k as usize]));
                }
                seen.push((key(self.c, id).id, v));
            }
        }
        let same = fork.borrow().trace_hash == self.core.borrow().trace_hash;
        if same {
            // Looking changed nothing, so this is what has been observed from now on
            for (id, v) in seen {
                self.m.entry(id).or_insert_with(KeyState::new).settle(&v);
            }
        } else {
            st.hit("repair_needed_on_fresh_read");
        }
        Ok(())
    }

    /// Every kind of operation must work as the first one after the interruption
    fn fanout(&mut self, i: usize, o: &Op, st: &mut RunStats) -> Result<(), Violation> {
        let tag = 900_000 + i as i64;
        let kid = mix(self.c.seed ^ i as u64) as i64 & 63;
        let mut list = vec![
            op(FETCH, [kid, 0, 0, 0]),
            op(STORE, [kid, 3, tag, 0]),
            op(STORE, [kid, self.c.p("maxlen"), tag, 0]),
            op(ITER, [0, 0, 0, 0]),
            op(ERASE_ALL, [0; 4]),
        ];
        if self.c.p("multi") == 1 {
            list.push(op(REMOVE, [kid, 0, 0, 0]));
            list.push(op(REMOVE_ALL, [0; 4]));
        }
        for first in &list {
            let fork = self.core.borrow().fork();
            let mut f = (self.open)(&fork, self.cache);
            let mut m2 = self.m.clone();
            let r = exec_op(&mut *f, self.c, &self.g, first);
            let what = format!("{} as first operation after interrupted {}", NAMES[first.k as usize], NAMES[o.k as usize]);
            match &r.res {
                Out::Done(Ok(())) => apply(&mut m2, self.c, &self.g, first, Eff::Acked),
                Out::Done(Err(E::Full)) if first.k == STORE => {}
                r => return viol("recover-fail", i, format!("{what}: {}", out_name(r))),
            }
            st.hit("fanout_first_ops");
            let chk = if first.k == FETCH {
                check_fetch(&mut m2, self.c, first.a[0], &r.fetched.unwrap(), true)
            } else if first.k == ITER {
                check_entries(&mut m2, self.c, &r.entries, true, true)
            } else {
                Ok(())
            };
            if let Err((cl, ms)) = chk {
                return viol(&cl, i, format!("{what}: {ms}"));
            }
            for id in 0..self.c.p("keys").max(1) {
                fork.borrow_mut().begin_op(&[]);
                let r = exec_op(&mut *f, self.c, &self.g, &op(FETCH, [id, 0, 0, 0]));
                let Some(v) = r.fetched else {
                    return viol("recover-fail", i, format!("fetch of key {id} following {what}: {}", out_name(&r.res)));
                };
                if let Err((cl, ms)) = check_fetch(&mut m2, self.c, id, &v, true) {
                    return viol(&cl, i, format!("following {what}: {ms}"));
                }
            }
        }
        Ok(())
    }

    pub fn verify_live(&mut self, i: usize, st: &mut RunStats, what: &str) -> Result<(), Violation> {
        for id in 0..self.c.p("keys").max(1) {
            self.core.borrow_mut().begin_op(&[]);
            let r = exec_op(&mut *self.d, self.c, &self.g, &op(FETCH, [id, 0, 0, 0]));
            st.drain_core_log(&mut self.core.borrow_mut());
            let Some(v) = r.fetched else {
                return viol("read-fail", i, format!("{what}: fetch of key {id}: {}", out_name(&r.res)));
            };
            if let Err((cl, ms)) = check_fetch(&mut self.m, self.c, id, &v, true) {
                return viol(&cl, i, format!("{what}: {ms}"));
            }
        }
        Ok(())
    }

    fn verify_iter(&mut self, i: usize, what: &str) -> Result<(), Violation> {
        self.core.borrow_mut().begin_op(&[]);
        let r = exec_op(&mut *self.d, self.c, &self.g, &op(ITER, [0; 4]));
        if !matches!(r.res, Out::Done(Ok(()))) {
            return viol("read-fail", i, format!("{what}: iteration: {}", out_name(&r.res)));
        }
        check_entries(&mut self.m, self.c, &r.entries, true, true).or_else(|(cl, ms)| viol(&cl, i, format!("{what}: {ms}")))
    }

    pub fn power_cycle(&mut self) {
        self.d = if self.frozen { old::open_map(&self.core, self.cache) } else { (self.open)(&self.core, self.cache) };
    }

    /// The other version takes over. The pinned release is not asked to repair, that is what later fixes are about
    fn switch(&mut self, i: usize, st: &mut RunStats) -> Result<(), Violation> {
        if self.frozen {
            self.frozen = false;
            st.hit("new_continues_old");
        } else if layout::clean(&self.core.borrow()) {
            self.frozen = true;
            st.hit("old_continues_new");
        } else {
            st.hit("switch_refused_unrepaired");
        }
        self.power_cycle();
        if mix(self.c.seed ^ i as u64) & 3 == 0 {
            self.verify_live(i, st, "after changing the version")?;
        }
        Ok(())
    }

    /// Can the pinned release read what is there now?
    fn old_reads(&mut self, i: usize, st: &mut RunStats) -> Result<(), Violation> {
        if !layout::clean(&self.core.borrow()) {
            return Ok(());
        }
        st.hit("old_reads_new");
        let fork = self.core.borrow().fork();
        let mut f = old::open_map(&fork, CacheCfg::new(0, 1));
        let r = exec_op(&mut *f, self.c, &self.g, &op(ITER, [0; 4]));
        if !matches!(r.res, Out::Done(Ok(()))) {
            return viol("old-fails", i, format!("the pinned release iterating: {}", out_name(&r.res)));
        }
        let mut m2 = self.m.clone();
        if let Err((cl, ms)) = check_entries(&mut m2, self.c, &r.entries, true, true) {
            return viol(&cl, i, format!("the pinned release iterating: {ms}"));
        }
        for id in 0..self.c.p("keys").max(1) {
            fork.borrow_mut().begin_op(&[]);
            let r = exec_op(&mut *f, self.c, &self.g, &op(FETCH, [id, 0, 0, 0]));
            let Some(v) = r.fetched else {
                return viol("old-fails", i, format!("the pinned release fetching key {id}: {}", out_name(&r.res)));
            };
            if let Err((cl, ms)) = check_fetch(&mut m2, self.c, id, &v, true) {
                return viol(&cl, i, format!("the pinned release: {ms}"));
            }
        }
        Ok(())
    }

    fn flip(&mut self, o: &Op, st: &mut RunStats) {
        let g = self.g;
        let (raw, bit) = (o.a[1].unsigned_abs(), o.a[2].unsigned_abs());
        let mut core = self.core.borrow_mut();
        if o.a[0] == 0 {
            // a page marker
            let page = (raw % u64::from(g.pages)) as u32;
            let end = bit & 1 == 1;
            if !self.flipped_markers.insert((page, end)) {
                return;
            }
            let w = g.word() as usize;
            let s = page as usize * g.e as usize + if end { g.e as usize - w } else { 0 };
            let b = (bit >> 1) as usize % (w * 8);
            core.mem[s + b / 8] ^= 1 << (b % 8);
            st.hit("flip_marker");
            return;
        }
        let mut all = vec![];
        for p in 0..g.pages {
            if layout::page_state(&core, p) != layout::PState::Open {
                all.extend(layout::items(&core, p).0);
            }
        }
        if all.is_empty() {
            return;
        }
        let it = all[(raw % all.len() as u64) as usize];
        let h = g.header() as usize;
        let (pos, bitpos) = match o.a[0] {
            1 => {
                if it.len == 0 {
                    return;
                }
                let b = bit as usize % (it.len * 8);
                (it.off + h + b / 8, b % 8)
            }
            2 => (it.off + (bit as usize / 8) % 4, bit as usize % 8),
            _ => (it.off + 4 + (bit as usize / 8) % 4, bit as usize % 8),
        };
        if !self.flips.insert(it.off) {
            return; // at most one flip per item slot
        }
        // Whose item is it?
        let kb = core.mem[it.off + h];
        let owner = if it.len > 0 { Some(kb & 63) } else { None };
        let before = layout::items(&core, it.page);
        core.mem[pos] ^= 1 << bitpos;
        if o.a[0] >= 3 {
            // Damage to the length: only meaningful if resynchronisation cannot mistake payload for a header
            let after = layout::items(&core, it.page);
            let want: Vec<usize> = before.0.iter().map(|f| f.off).filter(|x| *x != it.off).collect();
            let got: Vec<usize> = after.0.iter().map(|f| f.off).collect();
            if want != got {
                core.mem[pos] ^= 1 << bitpos;
                st.hit("flip_skipped_ambiguous_payload");
                return;
            }
            st.hit("flip_length");
        } else if o.a[0] == 2 {
            st.hit("flip_crc");
        } else {
            st.hit("flip_data");
        }
        core.trace_hash = mix(core.trace_hash ^ pos as u64 ^ ((bitpos as u64) << 40));
        if it.erased {
            return;
        }
        if let Some(id) = owner {
            if let Some(ks) = self.m.get_mut(&id) {
                ks.damaged = true;
            }
        }
    }

    /// Repeat a refused operation on a copy of the flash with the size that was asked for, until it gets through
    fn retry(&self, i: usize, o: &Op, mut n: usize) -> Result<(), Violation> {
        let fork = self.core.borrow().fork();
        let mut d = (self.open)(&fork, self.cache);
        let mut o = o.clone();
        loop {
            o.a[buf_arg(o.k)] = n as i64;
            fork.borrow_mut().begin_op(&[]);
            match exec_op(&mut *d, self.c, &self.g, &o).res {
                Out::Done(Err(E::BufTooSmall(m))) if m <= n => {
                    return viol("buffer-wrong", i, format!("{} with a buffer of {n} bytes, as asked for, is refused with BufferTooSmall({m})", NAMES[o.k as usize]));
                }
                Out::Done(Err(E::BufTooSmall(m))) => n = m,
                _ => return Ok(()),
            }
        }
    }

    pub fn step(&mut self, i: usize, o: &Op, st: &mut RunStats) -> Result<(), Violation> {
        let c = self.c;
        let g = self.g;
        match o.k {
            RESTART if o.a[0] == 2 => return self.switch(i, st),
            RESTART => {
                if o.a[0] == 0 {
                    self.d.reopen();
                    st.hit("reopen_with_cache");
                } else {
                    self.power_cycle();
                    st.hit("cold_restart");
                }
                return Ok(());
            }
            VERIFY => {
                self.verify_live(i, st, "live instance")?;
                if c.p("itercheck") == 1 {
                    self.verify_iter(i, "live instance")?;
                }
                if c.p("compat") == 1 && !self.frozen {
                    self.old_reads(i, st)?;
                }
                return Ok(());
            }
            TYPED if c.p("compat") == 1 => return common::typed::same_codec(o, i, st),
            TYPED => return self.typed(i, o, st),
            FLIP => {
                self.flip(o, st);
                // After damage an instance with a warm cache is as good as a new one, but start clean like after a long time off
                if o.a[3] & 1 == 1 {
                    self.power_cycle();
                }
                return Ok(());
            }
            _ => {}
        }
        let mut need = self.enough;
        if c.p("tight") == 1 && (o.k == STORE || o.k == BAD_STORE) {
            let k = key(c, o.a[0]);
            let len = if o.k == BAD_STORE { o.a[1].max(0) as usize } else { vlen(c, &g, k, o.a[1]) };
            let v = value(c, k, o.a[2], len);
            let vl = if common::is_typed(c) { common::typed::encoded_len(c, self.cache.vt_of(k.id, common::typed::values(c)), &v) } else { v.len() };
            let own = klen(c, k) + vl;
            need = need.max(own.next_multiple_of(g.word() as usize));
            if own <= g.max_item() as usize {
                self.enough = need;
            }
        }
        let resolved = tight(o, need);
        let o = resolved.as_ref().unwrap_or(o);
        let mut faults = resolve(&self.core, &o.f, |fork| {
            let mut f = (self.open)(fork, self.cache.bare());
            exec_op(&mut *f, c, &g, o);
        });
        if self.frozen {
            // A power loss ends the life of the pinned release, other faults are not its business
            faults.retain(|f| f.kind == FaultKind::Power);
            faults.truncate(1);
        }
        let was_frozen = self.frozen;
        let muts_before = self.core.borrow().stats.erases;
        self.core.borrow_mut().begin_op(&faults);
        let live_before = live_size(&self.m, c, &g);
        let healthy = c.p("wear") == 1 && layout::map_healthy(&self.core.borrow());
        let r = exec_op(&mut *self.d, c, &g, o);
        let (fired, mutated, erases) = {
            let mut core = self.core.borrow_mut();
            st.log(|| format!("op {i}: {} -> {}{}", simcore::case::op_text(o, NAMES), out_name(&r.res), match &r.fetched { Some(Some(v)) => format!(" {}", short(v)), Some(None) => " None".into(), None => String::new() }));
            st.account(&mut core, o.k);
            (core.fired.clone(), core.mutated_this_op, core.stats.erases - muts_before)
        };
        self.recycled += erases;
        if erases > 0 {
            st.hit("ops_with_page_erase");
        }
        if !fired.is_empty() && erases > 0 {
            st.hit("fault_in_op_with_erase");
        }
        let hard = fired.iter().any(|f| f.kind != FaultKind::Glitch && f.kind != FaultKind::Isr);
        let glitch = fired.iter().any(|f| f.kind == FaultKind::Glitch);
        if glitch || !self.flips.is_empty() || !self.flipped_markers.is_empty() {
            st.nontrivial = true;
        }
        let name = NAMES[o.k as usize];
        for e in &r.errs {
            match e {
                E::Storage | E::Corrupted | E::Cancelled if hard => st.hit("iteration_continued_after_fault"),
                E::BufTooSmall(n) if o.k == BAD_ITER => {
                    self.buffer_error(i, o, need, *n)?;
                    st.hit("iteration_continued_with_longer_buffer");
                }
                e => return viol("bad-error", i, format!("next of an iteration returned {e:?}")),
            }
        }
        match &r.res {
            Out::Panicked(m) => return viol("panic", i, format!("{name} panicked: {m}")),
            Out::Hung => return viol("hang", i, format!("{name} did not finish within its step budget")),
            Out::PowerLost | Out::Cancelled => {
                apply(&mut self.m, c, &g, o, Eff::Maybe);
            }
            Out::Done(Ok(())) => {
                // Bit errors of the read path must not turn up here either
                apply(&mut self.m, c, &g, o, Eff::Acked);
                if o.k == STORE || o.k == BAD_STORE {
                    let kl = klen(c, key(c, o.a[0]));
                    let len = if o.k == BAD_STORE { o.a[1].max(0) as usize } else { vlen(c, &g, key(c, o.a[0]), o.a[1]) };
                    if kl + len > g.max_item() as usize {
                        return viol("too-big-accepted", i, format!("{name} of {} bytes accepted, the limit is {}", kl + len, g.max_item()));
                    }
                }
                if let Some(v) = &r.fetched {
                    if let Err((cl, ms)) = check_fetch(&mut self.m, c, o.a[0], v, true) {
                        return viol(&cl, i, ms);
                    }
                }
                if o.k == ITER || o.k == BAD_ITER {
                    if let Err((cl, ms)) = check_entries(&mut self.m, c, &r.entries, r.ended, true) {
                        return viol(&cl, i, format!("{ms}{}", if hard { " (a flash access failed during the iteration and no error was reported)" } else { "" }));
                    }
                }
                if c.p("wear") == 1 && mutated && healthy && matches!(o.k, FETCH | ITER | BAD_FETCH | BAD_ITER) {
                    return viol("read-mutates", i, format!("{name} on healthy storage changed the flash"));
                }
            }
            Out::Done(Err(e)) => {
                if (o.k == ITER || o.k == BAD_ITER) && !r.entries.is_empty() {
                    if let Err((cl, ms)) = check_entries(&mut self.m, c, &r.entries, false, false) {
                        return viol(&cl, i, ms);
                    }
                }
                match e {
                    E::Storage if hard => apply(&mut self.m, c, &g, o, Eff::Maybe),
                    E::Corrupted if hard => apply(&mut self.m, c, &g, o, Eff::Maybe),
                    E::Full if o.k == STORE || o.k == BAD_STORE => {
                        self.full_seen += 1;
                        st.hit("full_storage");
                        let kl = klen(c, key(c, o.a[0]));
                        let len = if o.k == BAD_STORE { o.a[1].max(0) as usize } else { vlen(c, &g, key(c, o.a[0]), o.a[1]) };
                        if kl + len > g.max_item() as usize {
                            return viol("too-big-as-full", i, format!("item of {} bytes refused as full instead of too big, the limit is {}", kl + len, g.max_item()));
                        }
                        let size = g.item_size((kl + len) as u32);
                        let guaranteed = (g.pages - 1) * (g.page_data() - size.min(g.page_data()));
                        if !glitch && !hard && c.p("capacity") == 1 && live_before <= guaranteed {
                            return viol(
                                "full-early",
                                i,
                                format!(
                                    "store of an item of {size} bytes refused as full although only {live_before} bytes are live, which leaves room on at least one of {} pages of {} bytes",
                                    g.pages - 1,
                                    g.page_data()
                                ),
                            );
                        }
                        if hard {
                            apply(&mut self.m, c, &g, o, Eff::Maybe);
                        }
                    }
                    E::TooBig if o.k == BAD_STORE => {
                        let n = klen(c, key(c, o.a[0])) + o.a[1].max(0) as usize;
                        if n <= g.max_item() as usize {
                            return viol("too-big-wrong", i, format!("item of {n} bytes refused as too big, the limit is {}", g.max_item()));
                        }
                        st.hit("rejected_too_big");
                    }
                    E::BufTooSmall(n) if o.k >= BAD_STORE => {
                        self.buffer_error(i, o, need, *n)?;
                        if c.p("tight") == 1 {
                            self.retry(i, o, *n)?;
                        }
                        st.hit("rejected_buffer");
                        if o.k == BAD_REMOVE {
                            apply(&mut self.m, c, &g, o, Eff::Maybe);
                        }
                    }
                    E::Ser(s) if o.k == BAD_STORE && common::is_typed(c) && o.a[3] >= 0 && s != "BufferTooSmall" => {
                        return viol("bad-error", i, format!("storing with a buffer of {} bytes, which is too small, is reported as {s}", o.a[3]));
                    }
                    E::Ser(s) if o.k == BAD_STORE && o.a[3] >= need as i64 && c.p("tight") == 1 => {
                        return viol("buffer-wrong", i, format!("storing with a buffer of {} bytes is refused with {s}, although all items fit in {need}", o.a[3]));
                    }
                    E::Ser(_) if o.k == BAD_STORE => st.hit("rejected_serialization"),
                    e => return viol("bad-error", i, format!("{name} returned {e:?}{}", if fired.is_empty() { "" } else { " (with an injected fault)" })),
                }
            }
        }
        let interrupted = hard;
        if was_frozen && interrupted {
            st.hit("new_recovers_old");
            self.frozen = false;
            self.power_cycle();
        }
        if interrupted {
            self.interruptions += 1;
            st.nontrivial = true;
            match fired.iter().find(|f| f.kind != FaultKind::Glitch).map(|f| f.kind) {
                Some(FaultKind::Power) => st.hit("power_loss"),
                Some(FaultKind::Cancel | FaultKind::MutCancel) => st.hit("cancelled_op"),
                _ => st.hit("failed_access"),
            }
        }
        if o.k == ERASE_ALL && !matches!(r.res, Out::Done(Ok(()))) {
            // An unfinished erase of everything has to be repeated by the application
            if matches!(r.res, Out::PowerLost) {
                self.power_cycle();
            }
            self.core.borrow_mut().begin_op(&[]);
            let r2 = exec_op(&mut *self.d, c, &g, o);
            st.drain_core_log(&mut self.core.borrow_mut());
            if !matches!(r2.res, Out::Done(Ok(()))) {
                return viol("bad-error", i, format!("repeated erase_all: {}", out_name(&r2.res)));
            }
            apply(&mut self.m, c, &g, o, Eff::Acked);
            return Ok(());
        }
        if o.k == ERASE_ALL && self.frozen {
            self.power_cycle(); // its caches did not follow
        }
        if interrupted {
            self.fresh_check(i, o, st)?;
            if c.p("fanout") == 1 {
                self.fanout(i, o, st)?;
            }
        }
        if matches!(r.res, Out::PowerLost) {
            self.power_cycle();
        } else if interrupted {
            // The live instance goes on with whatever its cache believes
            if c.p("livecheck") == 1 {
                self.verify_live(i, st, "live instance after the failure")?;
            }
        }
        if c.p("contract") == 1 {
            if let Some(m) = &self.core.borrow().contract {
                return viol("contract", i, m.clone());
            }
        }
        if c.p("wear") == 1 {
            self.wear(i, o)?;
        }
        Ok(())
    }

    fn buffer_error(&self, i: usize, o: &Op, need: usize, n: usize) -> Result<(), Violation> {
        let len = o.a[buf_arg(o.k)].max(0) as usize;
        if self.c.p("tight") == 1 && (len >= need || n <= len || n > need) {
            let name = NAMES[o.k as usize];
            return viol("buffer-wrong", i, format!("{name} with a buffer of {len} bytes is refused with BufferTooSmall({n}), although all items fit in {need}"));
        }
        Ok(())
    }

    /// P22: look at a value as another type, or store under a key that is too long
    fn typed(&mut self, i: usize, o: &Op, st: &mut RunStats) -> Result<(), Violation> {
        let c = self.c;
        let k = key(c, o.a[0]);
        if o.a[2] == 0 {
            common::typed::cut_keys(c, k.id, i)?;
            st.hit("cut_keys_decoded");
            let mut buf = Buf::new(70_000);
            let vt = self.cache.vt_of(LONG_KEY, common::typed::values(c));
            let v = common::typed::norm(c, vt, &payload(1, 3));
            self.core.borrow_mut().begin_op(&[]);
            let r = self.d.store(buf.as_mut(), SKey { id: LONG_KEY, x: 0 }, &v, 0);
            st.drain_core_log(&mut self.core.borrow_mut());
            st.log(|| format!("op {i}: {} -> {r:?}", simcore::case::op_text(o, NAMES)));
            st.hit("key_too_long");
            return match r {
                Out::Done(Err(E::Ser(_) | E::TooBig)) => Ok(()),
                r => viol("bad-error", i, format!("storing under a key of more than 65535 bytes: {r:?}")),
            };
        }
        let vt = o.a[1].rem_euclid(i64::from(common::typed::values(c))) as u8;
        let mut buf = full_buf(c, &self.g);
        self.core.borrow_mut().begin_op(&[]);
        let r = self.d.fetch_as(buf.as_mut(), k, vt);
        st.drain_core_log(&mut self.core.borrow_mut());
        st.log(|| format!("op {i}: {} -> {r:?}", simcore::case::op_text(o, NAMES)));
        st.hit("fetched_as_other_type");
        let Some(ks) = self.m.get(&k.id).filter(|s| s.allowed.len() == 1 && !s.damaged) else {
            return match r {
                Out::Done(Ok(_) | Err(E::Ser(_))) => Ok(()),
                r => viol("bad-error", i, format!("fetch as another type: {r:?}")),
            };
        };
        let expected = ks.allowed[0].as_ref().map(|v| common::typed::recode(c, self.cache.vt_of(k.id, common::typed::values(c)), vt, v));
        let same = match (&r, &expected) {
            (Out::Done(Ok(None)), None) => true,
            (Out::Done(Ok(Some(g))), Some(Ok(e))) => g == e,
            (Out::Done(Err(E::Ser(g))), Some(Err(e))) => g == e,
            _ => false,
        };
        if !same {
            return viol("typed", i, format!("fetch of key {} as another type: {r:?}, decoding its bytes gives {expected:?}", k.id));
        }
        Ok(())
    }

    /// Erases must go round in a circle and never hit a page that is still clean
    fn wear(&mut self, i: usize, o: &Op) -> Result<(), Violation> {
        let core = self.core.borrow();
        let n = self.g.pages;
        let log = &core.erase_log;
        let mut count = vec![0u64; n as usize];
        let mut astray = 0;
        for (j, (p, used)) in log.iter().enumerate() {
            count[*p as usize] += 1;
            if !used {
                return viol("erase-clean", i, format!("{} erased page {p} although nothing was written to it since its last erase", NAMES[o.k as usize]));
            }
            if j > 0 && *p != (log[j - 1].0 + 1) % n {
                astray += 1;
                if astray > 2 * self.interruptions {
                    return viol("erase-order", i, format!("page {p} erased after page {}, not in cyclic order ({} interruptions so far)", log[j - 1].0, self.interruptions));
                }
            }
        }
        let (mi, ma) = (count.iter().min().unwrap(), count.iter().max().unwrap());
        if ma - mi > 1 + 2 * self.interruptions {
            return viol("wear", i, format!("erase counts {count:?} differ by more than 1 + 2 x {} interruptions", self.interruptions));
        }
        if self.interruptions == 0 && log.len() == 1 {
            let clean = core.used.iter().filter(|u| !**u).count();
            if clean > 1 {
                return viol("erase-early", i, format!("page {} erased while {clean} pages are still unused", log[0].0));
            }
        }
        Ok(())
    }

    pub fn finish(&mut self, st: &mut RunStats) -> Result<(), Violation> {
        let i = self.c.ops.len();
        self.verify_live(i, st, "at the end, live instance")?;
        if self.c.p("compat") == 1 {
            if !self.frozen {
                self.old_reads(i, st)?;
            }
            self.frozen = false;
        }
        self.power_cycle();
        self.verify_live(i, st, "at the end, after a power cycle")?;
        self.verify_iter(i, "at the end, after a power cycle")?;
        // Liveness: once faults have stopped, storing works again (or is refused for a good reason)
        for (n, id) in [(0, 0), (1, 1), (2, 0)] {
            let o = op(STORE, [id, 2, 990_000 + n, 0]);
            self.step(i, &o, st)?;
        }
        self.verify_live(i, st, "at the end, after further stores")?;
        Ok(())
    }
}

pub fn run(c: &Case, st: &mut RunStats) -> Result<(), Violation> {
    if c.p("lockstep") == 1 {
        return run_lockstep(c, st);
    }
    let open = if common::is_typed(c) { common::typed::opener(c) } else { cur::open_map };
    let mut s = MapSim::new(c, open, st.log.is_some());
    if common::is_typed(c) {
        st.log(|| format!("keys of type {}", common::typed::types(c)[c.p("kt") as usize].0));
    }
    st.log(|| format!("geometry {:?} cache {:?}", s.g, s.cache));
    for (i, o) in c.ops.iter().enumerate() {
        s.step(i, o, st)?;
    }
    s.finish(st)?;
    if s.recycled as u32 > s.g.pages {
        st.hit("whole_flash_recycled");
        if c.p("trivial_ok") == 1 {
            st.nontrivial = true;
        }
    }
    st.absorb_core(&s.core.borrow());
    Ok(())
}

/// P12: the same history on instances that differ only in their cache
fn run_lockstep(c: &Case, st: &mut RunStats) -> Result<(), Violation> {
    let g = common::geo(c);
    let cfgs = [
        CacheCfg::new(0, 1),
        CacheCfg::new(1, c.p("ckeys").max(0) as usize),
        CacheCfg::new(2, 1),
        CacheCfg::new(3, c.p("ckeys").max(0) as usize),
        CacheCfg::new(1, 64),
        CacheCfg { missing: 1 + c.p("missing").max(0) as usize, ..CacheCfg::new(1, 5) },
    ];
    let cores: Vec<CoreRef> = cfgs.iter().map(|_| new_core(c, st.log.is_some()).shared()).collect();
    let mut ds: Vec<Box<dyn DynMap>> = cfgs.iter().zip(&cores).map(|(k, core)| cur::open_map(core, *k)).collect();
    let mut diverged = false;
    for (i, o) in c.ops.iter().enumerate() {
        if o.k == RESTART {
            for j in 0..ds.len() {
                if o.a[0] == 0 {
                    ds[j].reopen();
                } else {
                    ds[j] = cur::open_map(&cores[j], cfgs[j]);
                }
            }
            continue;
        }
        if o.k == VERIFY {
            let mut base: Option<Vec<Option<Vec<u8>>>> = None;
            for j in 0..ds.len() {
                let mut all = vec![];
                for id in 0..c.p("keys").max(1) {
                    cores[j].borrow_mut().begin_op(&[]);
                    let r = exec_op(&mut *ds[j], c, &g, &op(FETCH, [id, 0, 0, 0]));
                    let Some(v) = r.fetched else {
                        return viol("cache-error", i, format!("cache {:?}: fetch of key {id}: {}", cfgs[j], out_name(&r.res)));
                    };
                    all.push(v);
                }
                match &base {
                    None => base = Some(all),
                    Some(b) => {
                        if let Some(id) = (0..b.len()).find(|x| b[*x] != all[*x]) {
                            return viol("cache-differs", i, format!("key {id} is {:?} without and {:?} with cache {:?}", b[id].as_ref().map(|v| short(v)), all[id].as_ref().map(|v| short(v)), cfgs[j]));
                        }
                    }
                }
            }
            continue;
        }
        let h0 = cores[0].borrow().trace_hash;
        if cores.iter().any(|x| x.borrow().trace_hash != h0) {
            if !diverged {
                st.hit("lockstep_diverged_images");
            }
            diverged = true;
        }
        let faults = if diverged {
            vec![]
        } else {
            resolve(&cores[0], &o.f, |fork| {
                let mut f = cur::open_map(fork, CacheCfg::new(0, 1));
                exec_op(&mut *f, c, &g, o);
            })
        };
        let mut base: Option<Outcome> = None;
        for j in 0..ds.len() {
            cores[j].borrow_mut().begin_op(&faults);
            let r = exec_op(&mut *ds[j], c, &g, o);
            st.log(|| format!("op {i} cache {j}: {} -> {}", simcore::case::op_text(o, NAMES), out_name(&r.res)));
            st.account(&mut cores[j].borrow_mut(), o.k);
            match &r.res {
                Out::Panicked(m) => return viol("panic", i, format!("cache {:?}: {} panicked: {m}", cfgs[j], NAMES[o.k as usize])),
                Out::Hung => return viol("hang", i, format!("cache {:?}: {} hung", cfgs[j], NAMES[o.k as usize])),
                _ => {}
            }
            if !cores[j].borrow().fired.is_empty() {
                st.nontrivial = true;
                st.hit("lockstep_faults");
            }
            match &base {
                None => base = Some(r),
                Some(b) => {
                    if b.res != r.res || b.fetched != r.fetched || b.entries != r.entries {
                        let show = |x: &Outcome| format!("{} {} entries{}", out_name(&x.res), x.entries.len(), match &x.fetched { Some(Some(v)) => short(v), Some(None) => "None".into(), None => String::new() });
                        return viol("cache-differs", i, format!("{}: {} without cache but {} with cache {:?}", NAMES[o.k as usize], show(b), show(&r), cfgs[j]));
                    }
                }
            }
        }
        let b = base.unwrap();
        if matches!(b.res, Out::PowerLost) {
            for j in 0..ds.len() {
                ds[j] = cur::open_map(&cores[j], cfgs[j]);
            }
        }
        if o.k == ERASE_ALL && !matches!(b.res, Out::Done(Ok(()))) {
            for j in 0..ds.len() {
                cores[j].borrow_mut().begin_op(&[]);
                exec_op(&mut *ds[j], c, &g, o);
            }
        }
    }
    let end = op(VERIFY, [0; 4]);
    let mut c2 = c.clone();
    c2.ops = vec![end.clone()];
    // The flash left behind must hold the same for everybody, whatever the cache was
    let i = c.ops.len();
    for round in 0..2 {
        let mut base: Option<Vec<Option<Vec<u8>>>> = None;
        for j in 0..ds.len() {
            if round == 1 {
                ds[j] = cur::open_map(&cores[j], CacheCfg::new(0, 1));
            }
            let mut all = vec![];
            for id in 0..c.p("keys").max(1) {
                cores[j].borrow_mut().begin_op(&[]);
                let r = exec_op(&mut *ds[j], c, &g, &op(FETCH, [id, 0, 0, 0]));
                let Some(v) = r.fetched else {
                    return viol("cache-error", i, format!("cache {:?}: final fetch of key {id}: {}", cfgs[j], out_name(&r.res)));
                };
                all.push(v);
            }
            match &base {
                None => base = Some(all),
                Some(b) => {
                    if let Some(id) = (0..b.len()).find(|x| b[*x] != all[*x]) {
                        return viol("cache-differs", i, format!("finally key {id} is {:?} without and {:?} with cache {:?}{}", b[id].as_ref().map(|v| short(v)), all[id].as_ref().map(|v| short(v)), cfgs[j], if round == 1 { " (after reopening)" } else { "" }));
                    }
                }
            }
        }
    }
    for core in &cores {
        st.absorb_core(&core.borrow());
    }
    if c.p("trivial_ok") == 1 {
        st.nontrivial = true;
    }
    Ok(())
}

/// Generator settings of one property
pub struct Prof {
    pub ops: (i64, i64),
    /// store fetch remove remove_all iter erase_all restart verify
    pub w: [u32; 8],
    pub fault: u64,
    pub kinds: &'static [FaultKind],
    /// multiple faults in one operation, in permille of the faulted ones
    pub double: u64,
    pub big: bool,
    pub max_pages: u32,
    pub fill: i64,
}

pub fn profile(prop: &str, rng: &mut Rng) -> Prof {
    use FaultKind::*;
    const P: &[FaultKind] = &[Power];
    const LIVE: &[FaultKind] = &[Error, Cancel, MutError, MutCancel, MutError, MutCancel];
    const ALL: &[FaultKind] = &[Power, Power, Error, Cancel, MutError, MutCancel];
    let mut p = Prof { ops: (20, 90), w: [50, 18, 8, 1, 4, 1, 4, 5], fault: 0, kinds: P, double: 0, big: true, max_pages: 12, fill: 60 };
    match prop {
        "P01" => {
            p.ops = (30, 160);
            p.max_pages = 40;
        }
        "P02" => {
            p.fault = 250;
            p.w = [60, 10, 8, 1, 3, 1, 2, 2];
        }
        "P03" => {
            p.fault = 300;
            p.kinds = LIVE;
            p.double = 100;
            p.w = [55, 14, 10, 2, 4, 1, 2, 3];
        }
        "P04" => {
            p.fault = 250;
            p.kinds = ALL;
            p.w = [55, 8, 25, 4, 2, 0, 2, 2];
        }
        "P05" => {
            p.fault = 200;
            p.kinds = ALL;
            p.w = [50, 4, 8, 1, 30, 1, 3, 1];
        }
        "P06" => {
            p.fault = if rng.chance(500) { 100 } else { 0 };
            p.kinds = ALL;
            p.w = [70, 5, 8, 1, 1, 1, 2, 2];
            p.fill = rng.range(60, 130);
            p.ops = (30, 150);
        }
        "P21" => {
            p.fault = if rng.chance(700) { 80 } else { 0 };
            p.kinds = ALL;
            p.w = [60, 10, 8, 1, 4, 1, 12, 6];
            p.ops = (20, 110);
        }
        "P22" => {
            p.fault = if rng.chance(600) { 120 } else { 0 };
            p.kinds = ALL;
            p.w = [60, 14, 8, 1, 6, 1, 4, 4];
            p.ops = (15, 80);
            p.big = false;
        }
        "P12" => {
            p.fault = if rng.chance(700) { 150 } else { 0 };
            p.kinds = &[Power, MutError, MutCancel];
            p.w = [55, 18, 8, 1, 4, 1, 4, 4];
            p.ops = (20, 70);
            p.max_pages = 8;
        }
        "P13" => {
            p.fault = 350;
            p.kinds = ALL;
            p.double = 50;
            p.ops = (10, 50);
            p.w = [65, 8, 10, 2, 3, 1, 2, 2];
            p.max_pages = 6;
        }
        "P14" => {
            p.fault = 150;
            p.kinds = ALL;
        }
        "P15" => {
            p.fault = if rng.chance(400) { 60 } else { 0 };
            p.kinds = if rng.chance(500) { P } else { ALL };
            p.w = [75, 8, 5, 0, 4, 0, 2, 1];
            p.ops = (60, 250);
            p.max_pages = 10;
        }
        "P16" => {
            p.w = [45, 15, 6, 1, 6, 1, 4, 3];
            p.fault = 0;
            p.big = false;
        }
        "P17" => {
            p.fault = 500;
            p.kinds = if rng.chance(500) { &[Glitch] } else { &[Glitch, Glitch, Glitch, Power, MutError, MutCancel] };
            p.double = 0;
            p.big = false;
        }
        "P18" => {
            p.w = [45, 10, 5, 1, 3, 1, 3, 6];
            p.fault = if rng.chance(500) { 100 } else { 0 };
            p.kinds = ALL;
        }
        _ => {}
    }
    p
}

/// P22: choose key and value types; they determine the geometry
fn pick_types(rng: &mut Rng, c: &mut Case) -> Geo {
    c.set("typed", 1);
    c.set("tc", rng.range(0, 3));
    let ty = common::typed::types(c);
    let kt = rng.range(0, ty.len() as i64 - 1);
    c.set("kt", kt);
    c.set("vt", rng.range(0, i64::from(common::typed::values(c)) - 1));
    c.set("vmix", i64::from(rng.chance(500)));
    c.set("pages", c.p("pages").clamp(2, 6));
    if c.p("base") > 40 {
        c.set("base", 0x0800_0000 / i64::from(ty[kt as usize].4));
    }
    let count = i64::from(ty[kt as usize].1);
    c.set("keys", if rng.chance(400) { count } else { rng.range(2, 14).min(count) });
    common::geo(c)
}

pub fn generate(prop: &str, rng: &mut Rng, c: &mut Case) {
    let p = profile(prop, rng);
    let g = pick_geo(rng, c, &GeoReq { min_pages: 2, max_pages: p.max_pages, big: p.big, huge: p.big && matches!(prop, "P01" | "P18") });
    let g = if prop == "P22" { pick_types(rng, c) } else { g };
    let big_page = g.e >= 1024;
    let nkeys = if prop == "P22" {
        c.p("keys")
    } else if rng.chance(150) { rng.range(1, 2) } else if rng.chance(100) { rng.range(16, 64) } else { rng.range(2, 12) };
    c.set("eng", 0);
    c.set("keys", nkeys);
    c.set("klen", rng.range(0, 2));
    let max_val = i64::from(g.max_item()) - 1;
    // Typical value size so that the live data fills the wanted share of the capacity
    let capacity = i64::from(g.page_data()) * i64::from(g.pages - 1) * p.fill / 100;
    let per_key = (capacity / nkeys - i64::from(g.header()) - 4).clamp(0, max_val);
    let maxlen = if rng.chance(300) { max_val } else { (per_key * 2).clamp(1, max_val) };
    let maxlen = if prop == "P22" {
        // numbers take their space whatever the length, and the encoding of some values is a bit longer than the value
        let keys = *common::typed::key_lens(c).iter().max().unwrap() as i64;
        maxlen.min(i64::from(g.max_item()) - keys - 70).max(1)
    } else {
        maxlen
    };
    c.set("maxlen", maxlen);
    let multi = p.w[2] + p.w[3] > 0 && rng.chance(if prop == "P04" { 1000 } else { 700 });
    c.set("multi", i64::from(multi));
    match prop {
        "P03" | "P04" | "P05" => c.set("livecheck", i64::from(rng.chance(500))),
        "P12" => c.set("lockstep", 1),
        "P22" => {
            c.set("trivial_ok", 1);
            c.set("tight", 1);
        }
        "P21" => {
            c.set("compat", 1);
            c.set("trivial_ok", 1);
        }
        "P13" => c.set("fanout", 1),
        "P14" => {
            c.set("contract", 1);
            c.set("misalign", 0);
        }
        "P15" => {
            c.set("wear", 1);
            c.set("trivial_ok", 1);
        }
        "P16" => c.set("plain", 1),
        "P17" => c.set("far", 1),
        "P06" => {
            c.set("capacity", 1);
            c.set("trivial_ok", 1);
        }
        "P01" => c.set("trivial_ok", 1),
        "P18" => {
            c.set("trivial_ok", 1);
            c.set("tight", 1);
            c.set("fullbuf", 1);
        }
        _ => {}
    }
    if matches!(prop, "P05" | "P16" | "P17" | "P22") {
        c.set("itercheck", 1);
    }
    let mut n = rng.range(p.ops.0, p.ops.1);
    if big_page {
        n += 40; // recycling large pages takes more work
    }
    let hot = rng.range(0, nkeys - 1);
    let mut w = p.w;
    if let Some(ops) = common::vast_ops(rng, c) {
        n = ops;
        w = [140, 10, 3, 0, 1, 0, 2, 1];
    }
    if !multi {
        w[2] = 0;
        w[3] = 0;
    }
    let phase_len = rng.range(8, 40);
    for i in 0..n {
        // Now and then the workload changes its nature
        let phase = (i / phase_len) % 3;
        let kind = rng.weighted(&w) as u8;
        let kid = if rng.chance(250) { hot } else { rng.range(0, nkeys - 1) };
        let len = match rng.below(12) {
            0 => 0,
            1 => maxlen,
            2 => rng.range(0, maxlen),
            3 => rng.range(0, 8).min(maxlen),
            4 if big_page => (maxlen - rng.range(0, 64)).max(0),
            5..=7 if big_page => rng.range(0, (per_key * 2).min(maxlen)),
            _ => rng.range(0, (per_key + per_key * phase / 2).min(maxlen)),
        };
        let tag = i + 1;
        let mut o = match kind {
            0 => op(STORE, [kid, len, tag, i64::from(rng.chance(150))]),
            1 => op(FETCH, [kid, 0, 0, 0]),
            2 => op(REMOVE, [kid, 0, 0, 0]),
            3 => op(REMOVE_ALL, [0; 4]),
            4 => op(ITER, [if rng.chance(200) { rng.range(1, 5) } else { 0 }, rng.range(0, 2), 0, 0]),
            5 => op(ERASE_ALL, [0; 4]),
            6 if prop == "P21" && rng.chance(600) => op(RESTART, [2, 0, 0, 0]),
            6 => op(RESTART, [i64::from(rng.chance(500)), 0, 0, 0]),
            _ => op(VERIFY, [0; 4]),
        };
        if o.k < RESTART && rng.chance(p.fault) {
            let k = *rng.pick(p.kinds);
            o.f.push(gen_fault(rng, k, g.e));
            if rng.chance(p.double) {
                let k = *rng.pick(p.kinds);
                o.f.push(gen_fault(rng, k, g.e));
            }
        }
        if prop == "P16" && rng.chance(120) {
            let kind = rng.weighted(&[2, 4, 2, 3]) as i64;
            c.ops.push(op(FLIP, [kind, rng.range(0, 1 << 20), rng.range(0, 1 << 20), rng.range(0, 1)]));
            if rng.chance(600) {
                c.ops.push(op(VERIFY, [0; 4]));
            }
        }
        if prop == "P22" && rng.chance(80) {
            c.ops.push(op(TYPED, [kid, rng.range(0, 255), i64::from(rng.chance(950)), 0]));
        }
        if prop == "P21" && rng.chance(60) {
            c.ops.push(op(TYPED, [rng.range(0, 3), rng.range(0, 255), rng.range(0, 255), tag]));
        }
        if prop == "P22" && rng.chance(120) {
            let top = maxlen + 80;
            let bl = match rng.below(3) {
                0 => rng.range(0, 20),
                1 => rng.range(0, top),
                _ => TIGHT - if rng.chance(500) { 0 } else { rng.range(0, 8) },
            };
            let bad = match rng.below(5) {
                0..=1 => op(BAD_STORE, [kid, len.min(maxlen), 500_000 + tag, bl]),
                2 => op(BAD_FETCH, [kid, bl, 0, 0]),
                3 if multi => op(BAD_REMOVE, [if rng.chance(200) { -1 } else { kid }, bl, 0, 0]),
                _ => op(BAD_ITER, [bl, if rng.chance(500) { 1 << 20 } else { 0 }, 0, 0]),
            };
            c.ops.push(bad);
        }
        if prop == "P18" && rng.chance(300) {
            let max_item = i64::from(g.max_item());
            let bl = match rng.below(4) {
                0 => rng.range(0, 8),
                1 => rng.range(0, maxlen),
                2 => TIGHT - if rng.chance(500) { 0 } else { rng.range(0, 8) },
                _ => rng.range(0, maxlen + 16),
            };
            let bad = match rng.below(8) {
                0..=1 => op(BAD_STORE, [kid, max_item + rng.range(-12, 40), 500_000 + tag, max_item + 200]),
                2..=3 => op(BAD_STORE, [kid, len.min(maxlen), 500_000 + tag, bl]),
                4 => op(BAD_STORE, [kid, len.min(maxlen), 500_000 + tag, -rng.range(1, 2)]),
                5 => op(BAD_FETCH, [kid, bl, 0, 0]),
                6 if multi => op(BAD_REMOVE, [if rng.chance(200) { -1 } else { kid }, bl, 0, 0]),
                _ => op(BAD_ITER, [bl, if rng.chance(500) { 1 << 20 } else { 0 }, 0, 0]),
            };
            c.ops.push(bad);
            if rng.chance(500) {
                c.ops.push(op(VERIFY, [0; 4]));
            }
        }
        c.ops.push(o);
    }
    let _ = FILL;
}
