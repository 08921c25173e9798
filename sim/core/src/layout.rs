//! An independent reading of the in-flash layout. Used only to measure which states were reached and to
//! place bit flips; no oracle depends on it.
use crate::flash::Core;
use crate::rng::mix;

pub fn crc16(data: &[u8]) -> u16 {
    let mut crc = 0xffffu16;
    for byte in data {
        crc ^= u16::from(*byte);
        for _ in 0..8 {
            if crc & 1 == 1 {
                crc = (crc >> 1) ^ 0x1a2e;
            } else {
                crc >>= 1;
            }
        }
    }
    crc ^= 0xffff;
    if crc == 0xFFFF { 0xFFFE } else { crc }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum PState {
    Open,
    Partial,
    Closed,
    Torn,
}

#[derive(Clone, Copy, Debug)]
pub struct Found {
    pub page: u32,
    /// offset of the header in flash memory (relative to the range start)
    pub off: usize,
    pub len: usize,
    pub erased: bool,
}

pub fn page_state(c: &Core, p: u32) -> PState {
    let e = c.geo.e as usize;
    let s = p as usize * e;
    let r = c.geo.r as usize;
    let z = |x: &[u8]| x.iter().map(|b| b.count_zeros()).sum::<u32>() >= 4;
    match (z(&c.mem[s..s + r]), z(&c.mem[s + e - r..s + e])) {
        (true, true) => PState::Closed,
        (true, false) => PState::Partial,
        (false, false) => PState::Open,
        (false, true) => PState::Torn,
    }
}

/// Items by header chain per page; unreadable headers are skipped word by word (torn = count of skipped words)
pub fn items(c: &Core, p: u32) -> (Vec<Found>, usize) {
    let g = c.geo;
    let w = g.word() as usize;
    let e = g.e as usize;
    let start = p as usize * e + w;
    let end = (p as usize + 1) * e - w;
    let h = g.header() as usize;
    let mut a = start;
    let mut v = Vec::new();
    let mut torn = 0;
    while a + h <= end {
        let hd = &c.mem[a..a + h];
        if hd.iter().all(|b| *b == 0xFF) {
            break;
        }
        let len = u16::from_le_bytes([hd[4], hd[5]]) as usize;
        let ok = crc16(&hd[4..6]) == u16::from_le_bytes([hd[6], hd[7]]);
        let next = a + h + len.next_multiple_of(w);
        if !ok || next > end {
            torn += 1;
            a += w;
            continue;
        }
        v.push(Found { page: p, off: a, len, erased: hd[0..4].iter().all(|b| *b == 0) });
        a = next;
    }
    (v, torn)
}

/// Hash of the abstract shape of the flash: page states rotated to the current page, item and debris counts.
pub fn shape_hash(c: &Core) -> u64 {
    let n = c.geo.pages;
    let st: Vec<PState> = (0..n).map(|p| page_state(c, p)).collect();
    let mut h = mix(u64::from(n) ^ (u64::from(c.geo.e) << 8) ^ (u64::from(c.geo.w) << 32) ^ (u64::from(c.geo.r) << 40));
    for p in 0..n {
        let (it, torn) = items(c, p);
        let er = it.iter().filter(|i| i.erased).count();
        h = mix(h ^ (st[p as usize] as u64) ^ ((it.len() as u64) << 8) ^ ((er as u64) << 24) ^ ((torn.min(3) as u64) << 40));
    }
    h
}

/// Is there a valid item header whose length and CRC-16 were not written together? At least two of the four bytes
/// must be foreign: then only a 1 in 65536 accident made them match, which the format accepts.
pub fn mixed_header(c: &Core) -> bool {
    for p in 0..c.geo.pages {
        for i in items(c, p).0 {
            let w = &c.writer[i.off + 4..i.off + 8];
            let most = w.iter().map(|x| w.iter().filter(|y| *y == x).count()).max().unwrap_or(4);
            // A byte of 0xFF is never programmed and belongs to everybody
            let free = (0..4).filter(|j| w[*j] == 0 && c.mem[i.off + 4 + j] == 0xFF).count();
            if most + free <= 2 {
                return true;
            }
        }
    }
    false
}

/// Is this a map state that needs no repair?
pub fn map_healthy(c: &Core) -> bool {
    let n = c.geo.pages;
    let st: Vec<PState> = (0..n).map(|p| page_state(c, p)).collect();
    (0..n as usize).all(|p| match st[p] {
        PState::Torn => false,
        PState::Partial => st[(p + 1) % n as usize] == PState::Open,
        _ => true,
    })
}

/// Nothing is left to repair: no torn page, blank open pages, at most one page in use
pub fn clean(c: &Core) -> bool {
    let e = c.geo.e as usize;
    let st: Vec<PState> = (0..c.geo.pages).map(|p| page_state(c, p)).collect();
    let blank = |p: usize| c.mem[p * e..(p + 1) * e].iter().all(|b| *b == 0xFF);
    let partial = st.iter().filter(|s| **s == PState::Partial).count();
    map_healthy(c) && partial <= 1 && (0..st.len()).all(|p| st[p] != PState::Open || blank(p))
}
