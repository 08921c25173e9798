//! SharedRamRing next to a queue on the simulated flash.
include!("../../ring_common.rs");
use simcore::exec::drive_task;
use ss::queue::buffered::SharedRamRing;
use std::rc::Rc;

struct S<const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<()>, const N: usize> {
    core: CoreRef,
    ring: Rc<SharedRamRing<N>>,
    s: QueueStorage<SimFlash<RS, WS, ES>, C>,
}

impl<const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<()>, const N: usize> S<RS, WS, ES, C, N> {
    fn new(core: &CoreRef, cache: C) -> Self {
        Self { core: core.clone(), ring: Rc::new(SharedRamRing::new()), s: storage(core, cache) }
    }
}

impl<const RS: usize, const WS: usize, const ES: usize, C: CacheImpl<()>, const N: usize> DynRing for S<RS, WS, ES, C, N> {
    fn enqueue(&mut self, data: &[u8], discard: bool) -> Out<bool> {
        guarded(|| self.ring.enqueue(data, policy(discard)).is_ok())
    }
    fn drain_one(&mut self, scratch: &mut [u8], overwrite: bool) -> R<bool> {
        drive(&self.core, self.ring.drain_one(&mut self.s, scratch, overwrite)).map(|r| r.map_err(err))
    }
    fn drain_all(&mut self, scratch: &mut [u8], overwrite: bool) -> R<()> {
        drive(&self.core, self.ring.drain_all(&mut self.s, scratch, overwrite)).map(|r| r.map_err(err))
    }
    fn pop(&mut self, buf: &mut [u8], overwrite: bool) -> R<Option<Vec<u8>>> {
        drive(&self.core, self.ring.pop(&mut self.s, buf, overwrite)).map(|r| r.map(|v| v.map(|v| v.to_vec())).map_err(err))
    }
    fn peek(&mut self, buf: &mut [u8], overwrite: bool) -> R<Option<Vec<u8>>> {
        drive(&self.core, self.ring.peek(&mut self.s, buf, overwrite)).map(|r| r.map(|v| v.map(|v| v.to_vec())).map_err(err))
    }
    fn counts(&mut self) -> Out<Counts> {
        guarded(|| Counts {
            capacity: SharedRamRing::<N>::ram_capacity_bytes(),
            free: self.ring.ram_free_bytes(),
            pending: self.ring.ram_pending_count(),
            used: None,
            oldest: Some(self.ring.oldest_ram_item_len()),
        })
    }
    fn rewrap(&mut self) {
        self.ring = Rc::new(SharedRamRing::new());
    }
    fn isr(&self) -> Option<Enqueue> {
        let ring = self.ring.clone();
        Some(Rc::new(move |data, discard| ring.enqueue(data, policy(discard)).is_ok()))
    }
    fn task(&mut self, kind: TaskKind, scratch: &mut [u8], overwrite: bool, idle: &mut dyn FnMut() -> bool) -> Out<Option<E>> {
        let (ring, s) = (&self.ring, &mut self.s);
        let fut = async {
            loop {
                match kind {
                    TaskKind::WaitAndDrainAll => {
                        if let Err(e) = ring.wait_and_drain_all(s, scratch, overwrite).await {
                            return err(e);
                        }
                    }
                    TaskKind::WaitThenDrainAll => {
                        ring.wait().await;
                        if let Err(e) = ring.drain_all(s, scratch, overwrite).await {
                            return err(e);
                        }
                    }
                    TaskKind::WaitThenDrainOne => {
                        ring.wait().await;
                        loop {
                            match ring.drain_one(s, scratch, overwrite).await {
                                Ok(true) => {}
                                Ok(false) => break,
                                Err(e) => return err(e),
                            }
                        }
                    }
                }
            }
        };
        drive_task(&self.core, fut, idle)
    }
    fn wait_once(&mut self) -> Out<bool> {
        drive_task(&self.core, self.ring.wait(), &mut || false).map(|o| o.is_some())
    }
}

ring_dispatch!(S; 4 4 64, 1 1 32, 8 8 128, 4 4 1024; [5, 16, 61, 300]);
