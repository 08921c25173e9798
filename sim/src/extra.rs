//! What only P21 and P22 need: the pinned release and typed maps.

/// The typed drivers. `tc` selects the crate
pub mod typed {
    use simcore::api::{CacheCfg, DynMap};
    use simcore::case::Case;
    use simcore::exec::PANIC;
    use simcore::flash::CoreRef;
    use simcore::payload::payload;
    use simcore::runner::{RunStats, Violation, viol};
    use std::sync::OnceLock;

    type Opener = fn(&CoreRef, CacheCfg) -> Box<dyn DynMap>;
    /// name, number of keys, geometry
    pub type Type = (&'static str, u8, u32, u32, u32);

    fn tc(c: &Case) -> usize {
        c.p("tc").rem_euclid(4) as usize
    }
    pub fn types(c: &Case) -> &'static [Type] {
        [drvt0::TYPES, drvt1::TYPES, drvt2::TYPES, drvt3::TYPES][tc(c)]
    }
    pub fn values(c: &Case) -> u8 {
        [drvt0::VALUES, drvt1::VALUES, drvt2::VALUES, drvt3::VALUES][tc(c)]
    }
    pub fn opener(c: &Case) -> Opener {
        [drvt0::open as Opener, drvt1::open, drvt2::open, drvt3::open][tc(c)]
    }
    pub fn norm(c: &Case, vt: u8, p: &[u8]) -> Vec<u8> {
        [drvt0::norm, drvt1::norm, drvt2::norm, drvt3::norm][tc(c)](vt, p)
    }
    pub fn encoded_len(c: &Case, vt: u8, canon: &[u8]) -> usize {
        type Enc = fn(u8, &[u8]) -> Result<Vec<u8>, String>;
        let enc = [drvt0::encode_value as Enc, drvt1::encode_value, drvt2::encode_value, drvt3::encode_value][tc(c)];
        enc(vt, canon).map_or(0, |v| v.len())
    }
    /// Encode a value as one type and decode it as another
    pub fn recode(c: &Case, from: u8, to: u8, canon: &[u8]) -> Result<Vec<u8>, String> {
        type Enc = fn(u8, &[u8]) -> Result<Vec<u8>, String>;
        let enc = [drvt0::encode_value as Enc, drvt1::encode_value, drvt2::encode_value, drvt3::encode_value][tc(c)];
        let dec = [drvt0::decode_value as Enc, drvt1::decode_value, drvt2::decode_value, drvt3::decode_value][tc(c)];
        dec(to, &enc(from, canon)?)
    }

    /// P21: the encodings of keys and values are those of the pinned release
    pub fn same_codec(o: &simcore::case::Op, i: usize, st: &mut RunStats) -> Result<(), Violation> {
        macro_rules! compare {
            ($new:ident, $old:path) => {{
                use $old as old;
                let kt = o.a[1].rem_euclid($new::TYPES.len() as i64) as u8;
                let id = o.a[2].rem_euclid(i64::from($new::TYPES[kt as usize].1)) as u8;
                let vt = o.a[2].rem_euclid(i64::from($new::VALUES)) as u8;
                let canon = $new::norm(vt, &payload(o.a[3] as u32, o.a[1].rem_euclid(64) as usize));
                let name = $new::TYPES[kt as usize].0;
                let (kn, ko) = ($new::key_bytes(kt, id), old::key_bytes(kt, id));
                if kn != ko || kn.is_err() {
                    return viol("codec", i, format!("key {id} of type {name} is encoded as {kn:02x?}, by the pinned release as {ko:02x?}"));
                }
                let kn = kn.unwrap();
                let (dn, len) = ($new::key_id(kt, &kn), kn.len());
                if dn != Ok((Some(id), len)) {
                    return viol("codec", i, format!("key {id} of type {name}, encoded as {kn:02x?}, is decoded as {dn:?}"));
                }
                let (vn, vo) = ($new::encode_value(vt, &canon), old::encode_value(vt, &canon));
                if vn != vo || vn.is_err() {
                    return viol("codec", i, format!("value {canon:02x?} of type {vt} is encoded as {vn:02x?}, by the pinned release as {vo:02x?}"));
                }
                let v = $new::decode_value(vt, &vn.unwrap());
                if v.as_ref() != Ok(&canon) {
                    return viol("codec", i, format!("value {canon:02x?} of type {vt} is decoded as {v:02x?}"));
                }
            }};
        }
        match o.a[0].rem_euclid(4) {
            0 => compare!(drvt0, drvft::t0),
            1 => compare!(drvt1, drvft::t1),
            2 => compare!(drvt2, drvft::t2),
            _ => compare!(drvt3, drvft::t3),
        }
        st.hit("encodings_compared");
        Ok(())
    }

    /// P22: an encoded key that was cut off is not taken for another one
    pub fn cut_keys(c: &Case, id: u8, i: usize) -> Result<(), Violation> {
        type Enc = fn(u8, u8) -> Result<Vec<u8>, String>;
        type Dec = fn(u8, &[u8]) -> Result<(Option<u8>, usize), String>;
        let enc = [drvt0::key_bytes as Enc, drvt1::key_bytes, drvt2::key_bytes, drvt3::key_bytes][tc(c)];
        let dec = [drvt0::key_id as Dec, drvt1::key_id, drvt2::key_id, drvt3::key_id][tc(c)];
        let kt = c.p("kt") as u8;
        let name = types(c)[kt as usize].0;
        let raw = match enc(kt, id) {
            Ok(raw) => raw,
            Err(e) => return viol("codec", i, format!("key {id} of type {name} can't be encoded: {e}")),
        };
        for cut in 0..raw.len() {
            match dec(kt, &raw[..cut]) {
                Err(e) if !e.starts_with(PANIC) => {}
                d => return viol("codec", i, format!("the first {cut} bytes of key {id} of type {name}, encoded as {raw:02x?}, are decoded as {d:?}")),
            }
        }
        Ok(())
    }

    /// Lengths of the encoded keys by id
    pub fn key_lens(c: &Case) -> &'static [usize] {
        static T: OnceLock<Vec<Vec<Vec<usize>>>> = OnceLock::new();
        let t = T.get_or_init(|| {
            let all: [(&[Type], fn(u8, u8) -> Result<Vec<u8>, String>); 4] = [
                (drvt0::TYPES, drvt0::key_bytes),
                (drvt1::TYPES, drvt1::key_bytes),
                (drvt2::TYPES, drvt2::key_bytes),
                (drvt3::TYPES, drvt3::key_bytes),
            ];
            all.iter()
                .map(|(ty, f)| {
                    (0..ty.len()).map(|k| (0..ty[k].1).map(|id| f(k as u8, id).map_or(0, |v| v.len())).collect()).collect()
                })
                .collect()
        });
        &t[tc(c)][c.p("kt") as usize]
    }
}

/// The pinned release
pub mod old {
    use simcore::api::{CacheCfg, DynMap, DynQueue};
    use simcore::flash::CoreRef;

    pub fn open_map(core: &CoreRef, c: CacheCfg) -> Box<dyn DynMap> {
        let all = [drvf0::open_map, drvf1::open_map, drvf2::open_map];
        all.iter().find_map(|f| f(core, c)).expect("geometry is not compiled in")
    }

    pub fn open_queue(core: &CoreRef, c: CacheCfg) -> Box<dyn DynQueue> {
        let all = [drvf0::open_queue, drvf1::open_queue, drvf2::open_queue];
        all.iter().find_map(|f| f(core, c)).expect("geometry is not compiled in")
    }
}

