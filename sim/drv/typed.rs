// Included after codec.rs by the typed driver crates: typed maps behind the same face as the byte map.
use simcore::api::{CacheCfg, DynMap, E, R, SKey};
use simcore::exec::{Retry, drive, step};
use simcore::typed::LONG_KEY;
use simcore::flash::{CoreRef, SimErr, SimFlash};
use ss::cache::key_pointers::{ArrayKeyPointers, HeapKeyPointers};
use ss::cache::page_pointers::{ArrayPagePointers, HeapPagePointers};
use ss::cache::page_states::{CalculatedPageStates, HeapPageStates};
use ss::cache::{Cache, CacheImpl, Uncached};
use ss::map::{MapConfig, MapStorage};

fn err(e: ss::Error<SimErr>) -> E {
    match e {
        ss::Error::Storage { .. } => E::Storage,
        ss::Error::FullStorage => E::Full,
        ss::Error::Corrupted { .. } => E::Corrupted,
        ss::Error::LogicBug { .. } => E::LogicBug,
        ss::Error::BufferTooBig => E::BufTooBig,
        ss::Error::BufferTooSmall(n) => E::BufTooSmall(n),
        ss::Error::SerializationError(s) => E::Ser(format!("{s:?}")),
        ss::Error::ItemTooBig => E::TooBig,
        _ => E::Other,
    }
}

macro_rules! values {
    ($($i:literal $t:ty),* $(,)?) => {
        values_codec!($($i $t),*);
        async fn store_v<K: TK, const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<K>>(
            s: &mut MapStorage<K, SimFlash<RS, WS, ES>, C>, vt: u8, buf: &mut [u8], k: &K, v: &[u8], how: u8,
        ) -> Result<(), E> {
            match vt {
                $($i => {
                    let v = <$t as TV>::make(v);
                    if how == 1 { s.store_item_generic(buf, k, &v).await } else { s.store_item(buf, k, &v).await }
                })*
                _ => unreachable!(),
            }.map_err(err)
        }
        async fn fetch_v<K: TK, const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<K>>(
            s: &mut MapStorage<K, SimFlash<RS, WS, ES>, C>, vt: u8, buf: &mut [u8], k: &K,
        ) -> Result<Option<Vec<u8>>, E> {
            match vt {
                $($i => s.fetch_item::<<$t as TV>::Of<'_>>(buf, k).await.map(|v| v.map(|v| <$t as TV>::canon(&v))),)*
                _ => unreachable!(),
            }.map_err(err)
        }
        async fn next_v<K: TK, const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<K>>(
            s: &mut ss::map::MapItemIter<'_, K, SimFlash<RS, WS, ES>, C>, vt: u8, buf: &mut [u8],
        ) -> Result<Option<(K, Vec<u8>)>, E> {
            match vt {
                $($i => s.next::<<$t as TV>::Of<'_>>(buf).await.map(|v| v.map(|(k, v)| (k, <$t as TV>::canon(&v)))),)*
                _ => unreachable!(),
            }.map_err(err)
        }
    };
}


pub struct TM<K: TK, const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<K>> {
    core: CoreRef,
    keys: Vec<K>,
    cfg: CacheCfg,
    s: Option<MapStorage<K, SimFlash<RS, WS, ES>, C>>,
}

impl<K: TK, const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<K>> TM<K, RS, WS, ES, C> {
    fn new(core: &CoreRef, cfg: CacheCfg, cache: C) -> Self {
        let range = core.borrow().geo.range();
        Self { core: core.clone(), keys: (0..K::COUNT).map(K::make).collect(), cfg, s: Some(MapStorage::new(SimFlash(core.clone()), MapConfig::new(range), cache)) }
    }
    fn vt(&self, id: u8) -> u8 {
        self.cfg.vt_of(id, VALUES)
    }
}

impl<K: TK, const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<K>> DynMap for TM<K, RS, WS, ES, C> {
    fn store(&mut self, buf: &mut [u8], k: SKey, v: &[u8], how: u8) -> R<()> {
        let vt = self.vt(k.id);
        let s = self.s.as_mut().unwrap();
        let long;
        let key = if k.id == LONG_KEY {
            let Some(k) = K::long() else {
                return simcore::exec::guarded(|| match K::long_sibling() {
                    Some(Ok(_)) => Ok(()),
                    Some(Err(e)) => Err(E::Ser(format!("{e:?}"))),
                    None => Err(E::Ser("InvalidData".into())),
                });
            };
            long = k;
            &long
        } else {
            &self.keys[k.id as usize]
        };
        drive(&self.core, store_v(s, vt, buf, key, v, how))
    }
    fn fetch_as(&mut self, buf: &mut [u8], k: SKey, vt: u8) -> R<Option<Vec<u8>>> {
        let s = self.s.as_mut().unwrap();
        drive(&self.core, fetch_v(s, vt, buf, &self.keys[k.id as usize]))
    }
    fn fetch(&mut self, buf: &mut [u8], k: SKey) -> R<Option<Vec<u8>>> {
        let vt = self.vt(k.id);
        let s = self.s.as_mut().unwrap();
        drive(&self.core, fetch_v(s, vt, buf, &self.keys[k.id as usize]))
    }
    fn remove(&mut self, buf: &mut [u8], k: SKey) -> R<()> {
        let s = self.s.as_mut().unwrap();
        drive(&self.core, s.remove_item(buf, &self.keys[k.id as usize])).map(|r| r.map_err(err))
    }
    fn remove_all(&mut self, buf: &mut [u8]) -> R<()> {
        let s = self.s.as_mut().unwrap();
        drive(&self.core, s.remove_all_items(buf)).map(|r| r.map_err(err))
    }
    fn erase_all(&mut self) -> R<()> {
        let s = self.s.as_mut().unwrap();
        drive(&self.core, s.erase_all()).map(|r| r.map_err(err))
    }
    fn iter(&mut self, buf: &mut [u8], limit: usize, retries: usize, out: &mut Vec<(SKey, Vec<u8>)>, errs: &mut Vec<E>) -> R<bool> {
        let cfg = self.cfg;
        let s = self.s.as_mut().unwrap();
        let keys = &self.keys;
        let core = &self.core;
        drive(core, async {
            let mut it = s.fetch_all_items(buf).await.map_err(err)?;
            let mut rt = Retry::new(retries);
            loop {
                if out.len() >= limit {
                    return Ok(false);
                }
                let mut longer = rt.longer.take();
                let b = longer.as_mut().map_or(&mut *buf, |l| l.as_mut());
                let next = async {
                    if cfg.vmix {
                        // the types differ per key: take the bytes and decode what the key says
                        match it.next::<&[u8]>(b).await.map_err(err)? {
                            None => Ok(None),
                            Some((k, raw)) => {
                                let id = keys.iter().position(|x| *x == k).map_or(255, |i| i as u8);
                                let v = decode_value(cfg.vt_of(id, VALUES), raw).map_err(E::Ser)?;
                                Ok(Some((k, v)))
                            }
                        }
                    } else {
                        next_v(&mut it, cfg.vt_of(0, VALUES), b).await
                    }
                };
                match step(core, rt.left > 0, next).await.unwrap_or(Err(E::Cancelled)) {
                    Ok(Some((k, v))) => {
                        let id = keys.iter().position(|x| *x == k).map_or(255, |i| i as u8);
                        out.push((SKey { id, x: 0 }, v));
                    }
                    Ok(None) => return Ok(true),
                    Err(e @ E::Ser(_)) => return Err(e),
                    Err(e) => rt.note(e, errs)?,
                }
            }
        })
    }
    fn reopen(&mut self) {
        let (f, c) = self.s.take().unwrap().destroy();
        let range = self.core.borrow().geo.range();
        self.s = Some(MapStorage::new(f, MapConfig::new(range), c));
    }
    fn overhead(&self) -> u32 {
        MapStorage::<K, SimFlash<RS, WS, ES>, C>::item_overhead_size()
    }
}

fn typed_cache<K: TK + 'static, const RS: usize, const WS: usize, const ES: usize, const V: u8>(core: &CoreRef, c: CacheCfg) -> Box<dyn DynMap> {
    let n = core.borrow().geo.pages as usize;
    match (c.id, V) {
        (0, _) => Box::new(TM::<K, RS, WS, ES, _>::new(core, c, Cache::new_uncached())),
        (_, 0) => Box::new(TM::<K, RS, WS, ES, _>::new(core, c, Cache::new(HeapPageStates::new(n), HeapPagePointers::new(c.ptrs(n)), HeapKeyPointers::new(c.keys)))),
        (_, 1) => Box::new(TM::<K, RS, WS, ES, _>::new(core, c, Cache::new(CalculatedPageStates::new(n), ArrayPagePointers::<64>::new(), ArrayKeyPointers::<K, 3>::new()))),
        _ => Box::new(TM::<K, RS, WS, ES, _>::new(core, c, Cache::new(Uncached, Uncached, HeapKeyPointers::new(c.keys)))),
    }
}

macro_rules! keys {
    ($($i:literal $k:ty, $r:literal $w:literal $e:literal $v:literal;)*) => {
        keys_codec!($($i $k, $r $w $e $v;)*);
        /// key type, number of keys, geometry
        pub const TYPES: &[(&str, u8, u32, u32, u32)] = &[$((stringify!($k), <$k as TK>::COUNT, $r, $w, $e)),*];
        pub fn open(core: &CoreRef, c: CacheCfg) -> Box<dyn DynMap> {
            match c.kt {
                $($i => typed_cache::<$k, $r, $w, $e, $v>(core, c),)*
                _ => unreachable!(),
            }
        }
    };
}
