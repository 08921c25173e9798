// Included by every driver crate: with `ss` = the crate under test and with `ss` = the frozen pinned release.
// Real code: everything in `ss`. Stub: the flash below it (SimFlash).
use simcore::api::{CacheCfg, DynMap, DynQueue, E, Ev, R, SKey};
use simcore::exec::{Retry, drive, step};
use simcore::flash::{CoreRef, SimErr, SimFlash};
use simcore::payload::Buf;
use ss::cache::key_pointers::{ArrayKeyPointers, HeapKeyPointers};
use ss::cache::page_pointers::{ArrayPagePointers, HeapPagePointers};
use ss::cache::page_states::{ArrayPageStates, CalculatedPageStates, HeapPageStates};
use ss::cache::{Cache, CacheImpl, Uncached};
use ss::map::{MapConfig, MapStorage, SerializationError, Value};
use ss::queue::{QueueConfig, QueueStorage};

/// Byte value with an optionally failing serializer
pub struct SimVal<'a> {
    data: &'a [u8],
    fail: u8,
}

impl<'a> Value<'a> for SimVal<'a> {
    fn serialize_into(&self, buffer: &mut [u8]) -> Result<usize, SerializationError> {
        match self.fail {
            0 => {}
            1 => return Err(SerializationError::InvalidData),
            _ => return Err(SerializationError::Custom(77)),
        }
        buffer.get_mut(..self.data.len()).ok_or(SerializationError::BufferTooSmall)?.copy_from_slice(self.data);
        Ok(self.data.len())
    }
    fn deserialize_from(buffer: &'a [u8]) -> Result<(Self, usize), SerializationError> {
        Ok((SimVal { data: buffer, fail: 0 }, buffer.len()))
    }
}

pub fn err(e: ss::Error<SimErr>) -> E {
    match e {
        ss::Error::Storage { .. } => E::Storage,
        ss::Error::FullStorage => E::Full,
        ss::Error::Corrupted { .. } => E::Corrupted,
        ss::Error::LogicBug { .. } => E::LogicBug,
        ss::Error::BufferTooBig => E::BufTooBig,
        ss::Error::BufferTooSmall(n) => E::BufTooSmall(n),
        ss::Error::SerializationError(s) => E::Ser(format!("{s:?}")),
        ss::Error::ItemTooBig => E::TooBig,
        _ => E::Other,
    }
}

pub struct M<const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<SKey>> {
    core: CoreRef,
    s: Option<MapStorage<SKey, SimFlash<RS, WS, ES>, C>>,
}

impl<const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<SKey>> M<RS, WS, ES, C> {
    fn new(core: &CoreRef, cache: C) -> Self {
        let range = core.borrow().geo.range();
        Self { core: core.clone(), s: Some(MapStorage::new(SimFlash(core.clone()), MapConfig::new(range), cache)) }
    }
    fn s(&mut self) -> (&CoreRef, &mut MapStorage<SKey, SimFlash<RS, WS, ES>, C>) {
        (&self.core, self.s.as_mut().unwrap())
    }
}

impl<const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<SKey>> DynMap for M<RS, WS, ES, C> {
    fn store(&mut self, buf: &mut [u8], k: SKey, v: &[u8], how: u8) -> R<()> {
        let (c, s) = self.s();
        let v = SimVal { data: v, fail: how.saturating_sub(1) };
        if how == 1 {
            drive(c, s.store_item_generic(buf, &k, &v)).map(|r| r.map_err(err))
        } else {
            drive(c, s.store_item(buf, &k, &v)).map(|r| r.map_err(err))
        }
    }
    fn fetch(&mut self, buf: &mut [u8], k: SKey) -> R<Option<Vec<u8>>> {
        let (c, s) = self.s();
        drive(c, s.fetch_item::<SimVal>(buf, &k)).map(|r| r.map(|v| v.map(|v| v.data.to_vec())).map_err(err))
    }
    fn remove(&mut self, buf: &mut [u8], k: SKey) -> R<()> {
        let (c, s) = self.s();
        drive(c, s.remove_item(buf, &k)).map(|r| r.map_err(err))
    }
    fn remove_all(&mut self, buf: &mut [u8]) -> R<()> {
        let (c, s) = self.s();
        drive(c, s.remove_all_items(buf)).map(|r| r.map_err(err))
    }
    fn erase_all(&mut self) -> R<()> {
        let (c, s) = self.s();
        drive(c, s.erase_all()).map(|r| r.map_err(err))
    }
    fn iter(&mut self, buf: &mut [u8], limit: usize, retries: usize, out: &mut Vec<(SKey, Vec<u8>)>, errs: &mut Vec<E>) -> R<bool> {
        let (c, s) = self.s();
        drive(c, async {
            let mut it = s.fetch_all_items(buf).await.map_err(err)?;
            let mut rt = Retry::new(retries);
            loop {
                if out.len() >= limit {
                    return Ok(false);
                }
                let mut longer = rt.longer.take();
                let b = longer.as_mut().map_or(&mut *buf, |l| l.as_mut());
                let next = async { it.next::<SimVal>(b).await.map(|v| v.map(|(k, v)| (k, v.data.to_vec()))).map_err(err) };
                match step(c, rt.left > 0, next).await.unwrap_or(Err(E::Cancelled)) {
                    Ok(Some(e)) => out.push(e),
                    Ok(None) => return Ok(true),
                    Err(e) => rt.note(e, errs)?,
                }
            }
        })
    }
    fn reopen(&mut self) {
        let (f, c) = self.s.take().unwrap().destroy();
        let range = self.core.borrow().geo.range();
        self.s = Some(MapStorage::new(f, MapConfig::new(range), c));
    }
    fn overhead(&self) -> u32 {
        MapStorage::<SKey, SimFlash<RS, WS, ES>, C>::item_overhead_size()
    }
}

pub struct Q<const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<()>> {
    core: CoreRef,
    s: Option<QueueStorage<SimFlash<RS, WS, ES>, C>>,
}

impl<const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<()>> Q<RS, WS, ES, C> {
    fn new(core: &CoreRef, cache: C) -> Self {
        let range = core.borrow().geo.range();
        Self { core: core.clone(), s: Some(QueueStorage::new(SimFlash(core.clone()), QueueConfig::new(range), cache)) }
    }
    fn s(&mut self) -> (&CoreRef, &mut QueueStorage<SimFlash<RS, WS, ES>, C>) {
        (&self.core, self.s.as_mut().unwrap())
    }
}

impl<const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<()>> DynQueue for Q<RS, WS, ES, C> {
    fn push(&mut self, data: &[u8], overwrite: bool) -> R<()> {
        let (c, s) = self.s();
        drive(c, s.push(data, overwrite)).map(|r| r.map_err(err))
    }
    fn pop(&mut self, buf: &mut [u8]) -> R<Option<Vec<u8>>> {
        let (c, s) = self.s();
        drive(c, s.pop(buf)).map(|r| r.map(|v| v.map(|v| v.to_vec())).map_err(err))
    }
    fn peek(&mut self, buf: &mut [u8]) -> R<Option<Vec<u8>>> {
        let (c, s) = self.s();
        drive(c, s.peek(buf)).map(|r| r.map(|v| v.map(|v| v.to_vec())).map_err(err))
    }
    fn iter(&mut self, buf: &mut [u8], mask: u64, limit: usize, retries: usize, ev: &mut Vec<Ev>) -> R<()> {
        let (c, s) = self.s();
        drive(c, async {
            let mut it = s.iter().await.map_err(err)?;
            let mut i = 0;
            let mut left = retries;
            let mut longer: Option<Buf> = None;
            while i < limit {
                let mut long = longer.take();
                let b = long.as_mut().map_or(&mut *buf, |l| l.as_mut());
                let next = async {
                    match it.next(b).await {
                        Ok(None) => Ok(None),
                        Ok(Some(entry)) => Ok(Some(entry)),
                        Err(e) => Err(err(e)),
                    }
                };
                match step(c, left > 0, next).await.unwrap_or(Err(E::Cancelled)) {
                    Ok(None) => {
                        ev.push(Ev::End);
                        break;
                    }
                    Ok(Some(entry)) => {
                        ev.push(Ev::Entry(entry.to_vec()));
                        if mask >> (i % 64) & 1 == 1 {
                            let pop = async { entry.pop().await.map(|d| d.to_vec()).map_err(err) };
                            match step(c, left > 0, pop).await.unwrap_or(Err(E::Cancelled)) {
                                Ok(d) => ev.push(Ev::Popped(d)),
                                Err(e) => {
                                    ev.push(Ev::PopErr(e));
                                    if left == 0 {
                                        break;
                                    }
                                    left -= 1;
                                }
                            }
                        }
                        i += 1;
                    }
                    Err(e) => {
                        if let E::BufTooSmall(n) = e {
                            longer = Some(Buf::new(n.min(1 << 20)));
                        }
                        ev.push(Ev::NextErr(e));
                        if left == 0 {
                            break;
                        }
                        left -= 1;
                    }
                }
            }
            Ok(())
        })
    }
    fn max_fit(&mut self) -> R<Option<u32>> {
        let (c, s) = self.s();
        drive(c, s.find_max_fit()).map(|r| r.map_err(err))
    }
    fn space_left(&mut self) -> R<u32> {
        let (c, s) = self.s();
        drive(c, s.space_left()).map(|r| r.map_err(err))
    }
    fn erase_all(&mut self) -> R<()> {
        let (c, s) = self.s();
        drive(c, s.erase_all()).map(|r| r.map_err(err))
    }
    fn reopen(&mut self) {
        let (f, c) = self.s.take().unwrap().destroy();
        let range = self.core.borrow().geo.range();
        self.s = Some(QueueStorage::new(f, QueueConfig::new(range), c));
    }
    fn overhead(&self) -> u32 {
        QueueStorage::<SimFlash<RS, WS, ES>, C>::item_overhead_size()
    }
}

/// Cache ids: 0 none, 1 heap everything, 2 calculated states + array pointers + array keys, 3 depends on the geometry
fn map_cache<const RS: usize, const WS: usize, const ES: usize, const V: u8>(core: &CoreRef, c: CacheCfg) -> Box<dyn DynMap> {
    let n = core.borrow().geo.pages as usize;
    let np = c.ptrs(n);
    let k = c.keys;
    if (V == 9 || n > 64) && c.id > 1 {
        return map_cache::<RS, WS, ES, V>(core, CacheCfg { id: 1, ..c });
    }
    match c.id {
        0 => Box::new(M::<RS, WS, ES, _>::new(core, Cache::new_uncached())),
        1 => Box::new(M::<RS, WS, ES, _>::new(core, Cache::new(HeapPageStates::new(n), HeapPagePointers::new(np), HeapKeyPointers::new(k)))),
        2 => Box::new(M::<RS, WS, ES, _>::new(core, Cache::new(CalculatedPageStates::new(n), ArrayPagePointers::<64>::new(), ArrayKeyPointers::<SKey, 3>::new()))),
        _ => match V {
            0 => Box::new(M::<RS, WS, ES, _>::new(core, Cache::new(ArrayPageStates::<64>::new(), Uncached, Uncached))),
            1 => Box::new(M::<RS, WS, ES, _>::new(core, Cache::new(Uncached, ArrayPagePointers::<64>::new(), Uncached))),
            2 => Box::new(M::<RS, WS, ES, _>::new(core, Cache::new(Uncached, Uncached, ArrayKeyPointers::<SKey, 4>::new()))),
            3 => Box::new(M::<RS, WS, ES, _>::new(core, Cache::new(CalculatedPageStates::new(n), Uncached, Uncached))),
            4 => Box::new(M::<RS, WS, ES, _>::new(core, Cache::new(HeapPageStates::new(n), HeapPagePointers::new(np), Uncached))),
            5 => Box::new(M::<RS, WS, ES, _>::new(core, Cache::new(CalculatedPageStates::new(n), HeapPagePointers::new(np), HeapKeyPointers::new(k)))),
            6 => Box::new(M::<RS, WS, ES, _>::new(core, Cache::new(Uncached, HeapPagePointers::new(np), HeapKeyPointers::new(k)))),
            _ => Box::new(M::<RS, WS, ES, _>::new(core, Cache::new(ArrayPageStates::<64>::new(), ArrayPagePointers::<64>::new(), ArrayKeyPointers::<SKey, 2>::new()))),
        },
    }
}

fn queue_cache<const RS: usize, const WS: usize, const ES: usize, const V: u8>(core: &CoreRef, c: CacheCfg) -> Box<dyn DynQueue> {
    let n = core.borrow().geo.pages as usize;
    let np = c.ptrs(n);
    if (V == 9 || n > 64) && c.id > 1 {
        return queue_cache::<RS, WS, ES, V>(core, CacheCfg { id: 1, ..c });
    }
    match c.id {
        0 => Box::new(Q::<RS, WS, ES, _>::new(core, Cache::new_uncached())),
        1 => Box::new(Q::<RS, WS, ES, _>::new(core, Cache::new(HeapPageStates::new(n), HeapPagePointers::new(np), Uncached))),
        2 => Box::new(Q::<RS, WS, ES, _>::new(core, Cache::new(CalculatedPageStates::new(n), ArrayPagePointers::<64>::new(), Uncached))),
        _ => match V {
            0 | 4 => Box::new(Q::<RS, WS, ES, _>::new(core, Cache::new(ArrayPageStates::<64>::new(), Uncached, Uncached))),
            1 | 5 => Box::new(Q::<RS, WS, ES, _>::new(core, Cache::new(Uncached, ArrayPagePointers::<64>::new(), Uncached))),
            2 | 6 => Box::new(Q::<RS, WS, ES, _>::new(core, Cache::new(Uncached, HeapPagePointers::new(np), Uncached))),
            3 => Box::new(Q::<RS, WS, ES, _>::new(core, Cache::new(CalculatedPageStates::new(n), Uncached, Uncached))),
            _ => Box::new(Q::<RS, WS, ES, _>::new(core, Cache::new(ArrayPageStates::<64>::new(), ArrayPagePointers::<64>::new(), Uncached))),
        },
    }
}

macro_rules! dispatch {
    ($($r:literal $w:literal $e:literal $v:literal),* $(,)?) => {
        pub const GEOS: &[(u32, u32, u32)] = &[$(($r, $w, $e)),*];
        pub fn open_map(core: &CoreRef, c: CacheCfg) -> Option<Box<dyn DynMap>> {
            let g = core.borrow().geo;
            match (g.r, g.w, g.e) {
                $(($r, $w, $e) => Some(map_cache::<$r, $w, $e, $v>(core, c)),)*
                _ => None,
            }
        }
        pub fn open_queue(core: &CoreRef, c: CacheCfg) -> Option<Box<dyn DynQueue>> {
            let g = core.borrow().geo;
            match (g.r, g.w, g.e) {
                $(($r, $w, $e) => Some(queue_cache::<$r, $w, $e, $v>(core, c)),)*
                _ => None,
            }
        }
    };
}
