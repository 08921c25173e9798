use sequential_storage as ss;
use simcore::api::{CacheCfg, Counts, DynRing, E, Enqueue, R, TaskKind};
use simcore::exec::{Out, drive, guarded};
use simcore::flash::{CoreRef, SimErr, SimFlash};
use ss::cache::page_pointers::HeapPagePointers;
use ss::cache::page_states::HeapPageStates;
use ss::cache::{Cache, CacheImpl, Uncached};
use ss::queue::buffered::OverflowPolicy;
use ss::queue::{QueueConfig, QueueStorage};

fn err(e: ss::Error<SimErr>) -> E {
    match e {
        ss::Error::Storage { .. } => E::Storage,
        ss::Error::FullStorage => E::Full,
        ss::Error::Corrupted { .. } => E::Corrupted,
        ss::Error::LogicBug { .. } => E::LogicBug,
        ss::Error::BufferTooBig => E::BufTooBig,
        ss::Error::BufferTooSmall(n) => E::BufTooSmall(n),
        ss::Error::SerializationError(s) => E::Ser(format!("{s:?}")),
        ss::Error::ItemTooBig => E::TooBig,
        _ => E::Other,
    }
}

fn policy(discard: bool) -> OverflowPolicy {
    if discard { OverflowPolicy::DiscardOldest } else { OverflowPolicy::Err }
}

fn storage<const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<()>>(core: &CoreRef, cache: C) -> QueueStorage<SimFlash<RS, WS, ES>, C> {
    let range = core.borrow().geo.range();
    QueueStorage::new(SimFlash(core.clone()), QueueConfig::new(range), cache)
}

macro_rules! ring_dispatch {
    ($T:ident; $($r:literal $w:literal $e:literal),*; $ns:tt) => {
        pub fn open(core: &CoreRef, c: CacheCfg, n: usize) -> Option<Box<dyn DynRing>> {
            let g = core.borrow().geo;
            match (g.r, g.w, g.e) {
                $(($r, $w, $e) => ring_dispatch!(@n $T core c n; $r $w $e; $ns),)*
                _ => None,
            }
        }
    };
    (@n $T:ident $core:ident $c:ident $n:ident; $r:literal $w:literal $e:literal; [$($ns:literal),*]) => {
        match ($n, $c.id) {
            $(
                ($ns, 0) => Some(Box::new($T::<$r, $w, $e, _, $ns>::new($core, Cache::new_uncached()))),
                ($ns, _) => {
                    let n = g_pages($core);
                    Some(Box::new($T::<$r, $w, $e, _, $ns>::new($core, Cache::new(HeapPageStates::new(n), HeapPagePointers::new(n), Uncached))))
                }
            )*
            _ => None,
        }
    };
}

fn g_pages(core: &CoreRef) -> usize {
    core.borrow().geo.pages as usize
}
