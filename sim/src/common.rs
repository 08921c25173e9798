//! Shared by the engines: geometry and fault generation, fault resolution.
use simcore::api::CacheCfg;
use simcore::case::Case;
use simcore::flash::{Core, CoreRef, FULL, Fault, FaultKind, Geo};
use simcore::rng::Rng;

pub mod cur {
    use simcore::api::{CacheCfg, DynMap, DynQueue};
    use simcore::flash::CoreRef;

    /// (read size, write size, erase size) of the geometries compiled into the driver crates
    pub const GEOS: &[(u32, u32, u32)] = &[
        (1, 1, 32), (4, 4, 64), (1, 4, 96), (4, 1, 128), (8, 8, 128), (1, 8, 256), (32, 32, 384), (2, 2, 48), (16, 4, 256),
        (4, 4, 1024), (1, 32, 512), (4, 4, 4096), (4, 4, 131_072),
    ];

    pub fn open_map(core: &CoreRef, c: CacheCfg) -> Box<dyn DynMap> {
        let all = [drv0::open_map, drv1::open_map, drv2::open_map, drv3::open_map, drv4::open_map, drv5::open_map];
        all.iter().find_map(|f| f(core, c)).expect("geometry is not compiled in")
    }

    pub fn open_queue(core: &CoreRef, c: CacheCfg) -> Box<dyn DynQueue> {
        let all = [drv0::open_queue, drv1::open_queue, drv2::open_queue, drv3::open_queue, drv4::open_queue, drv5::open_queue];
        all.iter().find_map(|f| f(core, c)).expect("geometry is not compiled in")
    }
}

#[cfg(feature = "extra")]
pub use crate::extra::{old, typed};
#[cfg(not(feature = "extra"))]
pub use crate::extra_off::{old, typed};

pub fn is_typed(c: &Case) -> bool {
    c.p("typed") == 1
}

/// Index of the first geometry that is not small
const WEIGHTS: [u32; 13] = [12, 14, 10, 8, 10, 5, 5, 10, 5, 3, 3, 1, 0];

pub struct GeoReq {
    pub min_pages: u32,
    pub max_pages: u32,
    /// allow the pages of 4 KiB and up
    pub big: bool,
    /// allow the 128 KiB pages
    pub huge: bool,
}

pub fn pick_geo(rng: &mut Rng, c: &mut Case, q: &GeoReq) -> Geo {
    let mut w = WEIGHTS;
    if !q.big {
        w[11] = 0;
    }
    if q.huge {
        w[12] = 2;
    }
    let i = rng.weighted(&w);
    let (_, _, e) = cur::GEOS[i];
    let hi = if e >= 100_000 { q.max_pages.min(3) } else if e >= 1024 { q.max_pages.min(4) } else { q.max_pages };
    let mut pages = match rng.below(10) {
        0..=5 => rng.range(i64::from(q.min_pages), i64::from(hi.min(4))),
        6..=8 => rng.range(i64::from(q.min_pages), i64::from(hi.min(8))),
        _ => rng.range(i64::from(q.min_pages), i64::from(hi)),
    } as u32;
    pages = pages.clamp(q.min_pages, hi.max(q.min_pages));
    let base_pages = match rng.below(10) {
        0 | 1 => 0,
        2 | 3 => 1,
        4 | 5 => rng.range(2, 40),
        6 | 7 => 0x0800_0000 / i64::from(e),
        8 => 0x8000_0000 / i64::from(e) - rng.range(0, i64::from(pages)),
        // the very end of the address space, where the pinned release would overflow
        _ if c.prop == "P21" => 3,
        _ => (1 << 32) / i64::from(e),
    };
    c.set("geo", i as i64);
    c.set("pages", i64::from(pages));
    c.set("base", base_pages);
    let cache = rng.below(4) as i64;
    c.set("cache", cache);
    // now and then a key cache without any entry
    c.set("ckeys", rng.range(if c.prop == "P21" { 1 } else { 0 }, 12));
    // now and then a cache of page pointers that has no room for some pages
    if c.prop != "P21" && rng.chance(150) {
        c.set("missing", rng.range(1, 1 + i64::from(pages)));
    }
    c.set("yields", if rng.chance(100) { rng.range(1, 2) } else { 0 });
    // now and then hundreds of small pages
    let vast = rng.below(VAST) == 0;
    if vast && matches!(c.prop.as_str(), "P01" | "P02" | "P03" | "P05" | "P07" | "P08" | "P09" | "P12" | "P15") {
        c.set("geo", *rng.pick(&[0, 1, 7]));
        c.set("pages", rng.range(250, 330));
        c.set("base", base_pages.min(0x0800_0000 / 32));
        c.set("vast", 1);
    }
    geo(c)
}

/// One run in this many uses hundreds of pages
const VAST: u64 = 800;

/// Number of operations that use all of the pages
pub fn vast_ops(rng: &mut Rng, c: &Case) -> Option<i64> {
    (c.p("vast") == 1).then(|| rng.range(700, 1400))
}

pub fn geo(c: &Case) -> Geo {
    if is_typed(c) {
        let (_, _, r, w, e) = typed::types(c)[c.p("kt") as usize];
        return layout(c, r, w, e);
    }
    let (r, w, e) = cur::GEOS[(c.p("geo") as usize).min(cur::GEOS.len() - 1)];
    layout(c, r, w, e)
}

fn layout(c: &Case, r: u32, w: u32, e: u32) -> Geo {
    let pages = c.p("pages").clamp(1, 400);
    // the end of the range has to fit in 32 bits
    let highest = i64::from(u32::MAX / e) - pages;
    Geo { r, w, e, pages: pages as u32, base: c.p("base").clamp(0, highest) as u32 * e }
}

pub fn cache(c: &Case) -> CacheCfg {
    CacheCfg {
        id: c.p("cache") as u8,
        keys: c.p("ckeys").max(0) as usize,
        kt: c.p("kt") as u8,
        vt: c.p("vt") as u8,
        vmix: c.p("vmix") == 1,
        missing: c.p("missing").max(0) as usize,
    }
}

pub fn new_core(c: &Case, log: bool) -> Core {
    let mut core = Core::new(geo(c));
    core.yields = c.p("yields") as u32;
    core.multi = c.p("multi") == 1;
    core.far = c.p("far") == 1;
    core.log = log.then(Vec::new);
    core
}

pub fn gen_cut(rng: &mut Rng, e: u32) -> i64 {
    match rng.below(100) {
        0..=14 => 0,
        15..=34 => FULL,
        35..=44 => -rng.range(1, 8),
        45..=79 => rng.range(1, 16),
        _ => rng.range(0, i64::from(e)),
    }
}

/// Fault indices from 1000 on mean "modulo the number of accesses the operation would make", found by a dry run
pub const DRY: i64 = 1000;

pub fn gen_fault(rng: &mut Rng, kind: FaultKind, e: u32) -> Fault {
    let n = match rng.below(10) {
        0..=2 => rng.range(0, 3),
        _ => DRY + rng.range(0, 500),
    };
    let cut = if kind == FaultKind::Glitch { rng.range(0, 4096) } else { gen_cut(rng, e) };
    Fault { kind, n, cut }
}

/// Turn relative fault positions into absolute ones. `dry` executes the operation on a copy of the flash.
pub fn resolve(core: &CoreRef, faults: &[Fault], dry: impl FnOnce(&CoreRef)) -> Vec<Fault> {
    if faults.iter().all(|f| f.n < DRY) {
        return faults.to_vec();
    }
    let fork = core.borrow().fork();
    fork.borrow_mut().contract = None;
    dry(&fork);
    let f = fork.borrow();
    faults
        .iter()
        .map(|x| {
            let total = match x.kind {
                FaultKind::Power | FaultKind::MutError | FaultKind::MutCancel => f.muts,
                FaultKind::Error | FaultKind::Cancel => f.calls,
                FaultKind::Glitch => f.reads,
                FaultKind::Isr => f.calls,
            };
            let n = if x.n < DRY { x.n } else { (x.n - DRY) % total.max(1) };
            Fault { n, ..*x }
        })
        .collect()
}

/// Simpler parameters common to the engines
pub fn simpler(c: &Case) -> Vec<Case> {
    let mut v = vec![];
    for (name, to) in [("yields", 0), ("base", 0), ("base", 1), ("cache", 0), ("cache", 1), ("ckeys", 1), ("missing", 0), ("fanout", 0), ("tail", 0), ("vmix", 0)] {
        if c.params.iter().any(|p| p.0 == name && p.1 > to) {
            v.push(c.with(name, to));
        }
    }
    if c.p("pages") > 64 {
        v.push(c.with("pages", c.p("pages") / 2));
    }
    if c.p("pages") > 2 {
        v.push(c.with("pages", c.p("pages") - 1));
    }
    v
}
