//! Power is lost at every byte of every flash mutation of a history of stores and removals.
//! Afterwards every key has its acknowledged value, the one in flight its old or its new one.
mod flash;
use flash::*;
use sequential_storage::{cache::Cache, map::*};
use std::collections::BTreeMap;

const R: usize = 4;
const W: usize = 4;
const E: usize = 64;
const PAGES: usize = 4;
type F = Flash<R, W, E>;

fn map(f: &F) -> MapStorage<u8, F, Cache<sequential_storage::cache::Uncached, sequential_storage::cache::Uncached, sequential_storage::cache::Uncached, u8>> {
    MapStorage::new(f.clone(), MapConfig::new(f.range()), Cache::new_uncached())
}

fn value(key: u8, n: usize) -> Vec<u8> {
    vec![key ^ (n as u8) << 2; 4 + n % 5]
}

fn get(f: &F, key: u8) -> Option<Vec<u8>> {
    let mut buf = Aligned([0; 64]);
    run(map(f).fetch_item::<&[u8]>(&mut buf.0, &key)).unwrap().expect("fetch").map(|v| v.to_vec())
}

fn main() {
    // (key, store or remove)
    let mut ops: Vec<(u8, bool)> = vec![];
    for i in 0..36usize {
        ops.push(([1, 2, 1, 3, 1, 4, 2, 1, 5][i % 9], !matches!(i % 13, 6 | 11)));
    }
    let mut cut = 0;
    loop {
        let mut fired = false;
        for bytes in [0usize, 4, 8, 16, 32, 60, 64] {
            let f = F::new(PAGES);
            f.arm().cut = Some((cut, bytes));
            let mut model: BTreeMap<u8, Vec<u8>> = BTreeMap::new();
            let mut m = map(&f);
            let mut buf = Aligned([0; 64]);
            for (n, (key, store)) in ops.iter().enumerate() {
                let new = store.then(|| value(*key, n));
                let old = model.get(key).cloned();
                let res = match &new {
                    Some(v) => run(m.store_item(&mut buf.0, key, &v.as_slice())).unwrap(),
                    None => run(m.remove_item(&mut buf.0, key)).unwrap(),
                };
                if f.0.borrow().dead {
                    fired = true;
                    let g = F::from_mem(f.mem());
                    for k in 1..=5u8 {
                        let got = get(&g, k);
                        if k == *key {
                            assert!(got == old || got == new, "cut {cut}+{bytes}: key {k} is {got:?}, not {old:?} or {new:?}");
                        } else {
                            assert_eq!(got.as_ref(), model.get(&k), "cut {cut}+{bytes}: key {k}");
                        }
                        assert_eq!(get(&g, k), got, "changes when read again");
                    }
                    // go on with another key, then check again
                    let (rest, mut model) = (if *key == 5 { 4 } else { 5 }, model.clone());
                    let kept = get(&g, *key);
                    let mut m = map(&g);
                    for n in 100..112 {
                        run(m.store_item(&mut buf.0, &rest, &value(rest, n).as_slice())).unwrap().expect("store");
                        model.insert(rest, value(rest, n));
                    }
                    for k in 1..=5u8 {
                        let want = if k == *key { kept.as_ref() } else { model.get(&k) };
                        assert_eq!(get(&g, k).as_ref(), want, "cut {cut}+{bytes}, later: key {k}");
                    }
                    break;
                }
                res.expect("no fault");
                match new {
                    Some(v) => model.insert(*key, v),
                    None => model.remove(key),
                };
            }
        }
        if !fired {
            break;
        }
        cut += 1;
    }
    assert!(cut > 50);
    println!("ok: {cut} mutations");
}
