//! BufferedQueue on the simulated flash.
include!("../../ring_common.rs");
use ss::queue::buffered::BufferedQueue;

struct B<const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<()>, const N: usize> {
    core: CoreRef,
    q: Option<BufferedQueue<SimFlash<RS, WS, ES>, C, N>>,
}

impl<const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<()>, const N: usize> B<RS, WS, ES, C, N> {
    fn new(core: &CoreRef, cache: C) -> Self {
        Self { core: core.clone(), q: Some(BufferedQueue::new(storage(core, cache))) }
    }
    fn q(&mut self) -> (&CoreRef, &mut BufferedQueue<SimFlash<RS, WS, ES>, C, N>) {
        (&self.core, self.q.as_mut().unwrap())
    }
}

impl<const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<()>, const N: usize> DynRing for B<RS, WS, ES, C, N> {
    fn enqueue(&mut self, data: &[u8], discard: bool) -> Out<bool> {
        let (_, q) = self.q();
        guarded(|| q.enqueue(data, policy(discard)).is_ok())
    }
    fn drain_one(&mut self, scratch: &mut [u8], overwrite: bool) -> R<bool> {
        let (c, q) = self.q();
        drive(c, q.drain_one(scratch, overwrite)).map(|r| r.map_err(err))
    }
    fn drain_all(&mut self, scratch: &mut [u8], overwrite: bool) -> R<()> {
        let (c, q) = self.q();
        drive(c, q.drain_all(scratch, overwrite)).map(|r| r.map_err(err))
    }
    fn pop(&mut self, buf: &mut [u8], _overwrite: bool) -> R<Option<Vec<u8>>> {
        let (c, q) = self.q();
        drive(c, q.pop(buf)).map(|r| r.map(|v| v.map(|v| v.to_vec())).map_err(err))
    }
    fn peek(&mut self, buf: &mut [u8], _overwrite: bool) -> R<Option<Vec<u8>>> {
        let (c, q) = self.q();
        drive(c, q.peek(buf)).map(|r| r.map(|v| v.map(|v| v.to_vec())).map_err(err))
    }
    fn counts(&mut self) -> Out<Counts> {
        let (_, q) = self.q();
        guarded(|| Counts {
            capacity: BufferedQueue::<SimFlash<RS, WS, ES>, C, N>::ram_capacity_bytes(),
            free: q.ram_free_bytes(),
            pending: q.ram_pending_count(),
            used: Some(q.ram_bytes_used()),
            oldest: None,
        })
    }
    fn rewrap(&mut self) {
        let s = self.q.take().unwrap().into_storage();
        self.q = Some(BufferedQueue::new(s));
    }
    fn isr(&self) -> Option<Enqueue> {
        None
    }
    fn task(&mut self, _: TaskKind, _: &mut [u8], _: bool, _: &mut dyn FnMut() -> bool) -> Out<Option<E>> {
        Out::Done(None)
    }
    fn wait_once(&mut self) -> Out<bool> {
        Out::Done(false)
    }
}

ring_dispatch!(B; 4 4 64, 1 1 32, 8 8 128, 4 4 1024, 4 4 131_072; [5, 16, 61, 300, 65_700]);
