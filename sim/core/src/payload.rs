//! Deterministic payload contents: unique per tag where the length allows it.
use crate::rng::mix;

/// Style of the filler after the tag bytes
pub fn payload(tag: u32, len: usize) -> Vec<u8> {
    payload_style(tag, len, (mix(u64::from(tag) ^ 0x5157) % 8) as u8)
}

/// A payload in which no 8-byte window can pass for an item header and there are no 0xFF runs
pub fn payload_plain(tag: u32, len: usize) -> Vec<u8> {
    payload_style(tag, len, 4)
}

pub fn payload_style(tag: u32, len: usize, style: u8) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    let t = tag.to_le_bytes();
    let mut x = mix(u64::from(tag));
    for i in 0..len {
        let b = match style {
            0 => 0xFF,
            1 => 0x00,
            2 => {
                if i % 16 < 8 {
                    0xFF
                } else {
                    0
                }
            }
            3 => {
                // looks like an item header plus data: crc, len=2, crc16(len)
                let h = [0x11, 0x22, 0x33, 0x44, 2, 0, 0, 0, 0xAA, 0xBB, 0xCC, 0xDD];
                let mut h2 = h;
                let c = crate::layout::crc16(&[2, 0]).to_le_bytes();
                h2[6] = c[0];
                h2[7] = c[1];
                h2[i % 12]
            }
            _ => {
                if i % 8 == 0 {
                    x = mix(x);
                }
                (x >> ((i % 8) * 8)) as u8
            }
        };
        v.push(b);
    }
    for (i, b) in t.iter().enumerate() {
        if i < len {
            v[i] = *b;
        }
    }
    // Longer items also end in the tag, so that truncated or shifted data never compares equal
    if len >= 12 {
        for (i, b) in t.iter().enumerate() {
            let n = v.len();
            v[n - 4 + i] = *b ^ 0x5A;
        }
    }
    v
}

/// Some payloads are made so that the item's CRC-32 gets a value with a special meaning in the flash format.
/// `prefix`: what the item holds before the payload. Only aimed, not relied upon: if the format used another CRC the
/// payload would be an ordinary one.
/// `far`: keep away from those one bit away from the mark of an erased item.
pub fn forge(prefix: &[u8], v: &mut [u8], tag: u32, far: bool) {
    let h = mix(u64::from(tag) ^ 0xC3C3);
    if v.len() < 12 || h % 12 != 0 {
        return;
    }
    let want: u32 = [0, u32::MAX, 1, 0x1234_5600, 0x5678_90FF, 0xFE][(h >> 8) as usize % 6];
    if far && want <= 1 {
        return;
    }
    const POLY: u32 = 0x82f6_3b78;
    let n = v.len() - 4;
    let mut s = 0xEEEE_EEEEu32;
    for b in prefix.iter().chain(&v[..n]) {
        s ^= u32::from(*b);
        for _ in 0..8 {
            s = if s & 1 == 1 { (s >> 1) ^ POLY } else { s >> 1 };
        }
    }
    let mut x = !want;
    for _ in 0..32 {
        x = if x >> 31 == 1 { ((x ^ POLY) << 1) | 1 } else { x << 1 };
    }
    v[n..].copy_from_slice(&(x ^ s).to_le_bytes());
}

/// 4-byte (actually 8-byte) aligned byte buffer, optionally with a misaligned start.
pub struct Buf {
    v: Vec<u64>,
    len: usize,
    off: usize,
}

impl Buf {
    pub fn new(len: usize) -> Self {
        Self { v: vec![0x7B7B_7B7B_7B7B_7B7B; len / 8 + 2], len, off: 0 }
    }
    pub fn from(d: &[u8]) -> Self {
        let mut b = Self::new(d.len());
        b.as_mut().copy_from_slice(d);
        b
    }
    pub fn as_mut(&mut self) -> &mut [u8] {
        // SAFETY: u64 storage is valid as bytes and at least len + 8 bytes long
        unsafe { std::slice::from_raw_parts_mut(self.v.as_mut_ptr().cast::<u8>().add(self.off), self.len) }
    }
    pub fn as_ref(&self) -> &[u8] {
        // SAFETY: as above
        unsafe { std::slice::from_raw_parts(self.v.as_ptr().cast::<u8>().add(self.off), self.len) }
    }
    pub fn misalign(mut self, off: usize) -> Self {
        self.off = off % 8;
        self
    }
}
