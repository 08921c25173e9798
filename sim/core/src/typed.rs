//! Keys and values for the typed drivers.

/// Id of a key that is longer than a key may be
pub const LONG_KEY: u8 = 254;

/// Injective for ids below 64: one byte is the id (in the low 6 bits), at a position that depends on it, the others are
/// filler of different kinds, so that keys differ in a single byte anywhere
pub fn int_key(id: u8, b: &mut [u8]) {
    let n = b.len();
    if n == 0 {
        return;
    }
    let fill = [0u8, 0xFF, 0x80, 0x7F][(id / 16) as usize % 4];
    b.fill(fill);
    let pos = id as usize % 16 * n / 16;
    // the filler tells id / 16, the position and this byte the rest
    b[pos] = if n == 1 { id.wrapping_mul(0x45) } else { 0x10 | (id % 16) };
}

/// Byte strings of lengths 0 to `cap`, many of them prefixes of others
pub fn wide_key(id: u8, cap: usize) -> Vec<u8> {
    match id {
        60 => vec![0xFF; cap],
        61 => vec![0x61; cap],
        62 => vec![0x61; if cap > 257 { 257 } else { cap - 2 }],
        63 => vec![0; cap - 1],
        _ => {
            let mut v = vec![0x61; id as usize % 12];
            v.extend_from_slice([&[][..], &[0], &[0, 0], &[0xFF], &[0xFF, 0xFF]][(id / 12) as usize]);
            v
        }
    }
}

/// Strings of lengths 0 to `cap`, many of them prefixes of others
pub fn str_key(id: u8, cap: usize) -> String {
    match id {
        60 => "\u{7f}".repeat(cap),
        61 => "a".repeat(cap),
        62 => "a".repeat(if cap > 257 { 257 } else { cap - 2 }),
        63 => "\0".repeat(cap - 1),
        _ => {
            let mut v = "a".repeat(id as usize % 12);
            v.push_str(["", "\0", "é", "\u{1d11e}", "\u{ffff}"][(id / 12) as usize]);
            v
        }
    }
}

/// Valid UTF-8 made of arbitrary bytes, at most `cap` bytes
pub fn utf8(p: &[u8], cap: usize) -> Vec<u8> {
    let mut s = String::new();
    for b in p {
        let c = match b {
            0..=0x7F => char::from(*b),
            0x80..=0xDF => char::from_u32(u32::from(*b) * 9).unwrap(),
            _ => char::from_u32(0x1_0000 + u32::from(*b)).unwrap(),
        };
        // as long as the bytes it is made from, at least for ASCII, and never longer than the capacity
        if s.len() + c.len_utf8() > cap.min(p.len()) {
            break;
        }
        s.push(c);
    }
    s.into_bytes()
}
