//! Single-step executor: polls one future to completion, cancellation, power loss or panic.
use crate::api::E;
use crate::payload::Buf;
use crate::flash::{CoreRef, HUNG, Interrupted};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Debug, Clone, PartialEq)]
pub enum Out<T> {
    Done(T),
    Cancelled,
    PowerLost,
    Panicked(String),
    Hung,
}

impl<T> Out<T> {
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
        match self {
            Out::Done(v) => Out::Done(f(v)),
            Out::Cancelled => Out::Cancelled,
            Out::PowerLost => Out::PowerLost,
            Out::Panicked(m) => Out::Panicked(m),
            Out::Hung => Out::Hung,
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
}

/// Install a panic hook that keeps panics of the code under test silent and remembers where they were.
pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_SIM.get() {
            let loc = info.location().map_or(String::new(), |l| {
                let f = l.file();
                let f = f.rsplit_once("/src/").map_or(f, |x| x.1);
                format!("{f}:{}", l.line())
            });
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                (*s).to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            LAST_PANIC.with(|l| *l.borrow_mut() = format!("{msg} at {loc}"));
        } else {
            prev(info);
        }
    }));
}

/// Marks a panic in a codec that was called outside of an operation
pub const PANIC: &str = "panic:";

/// Run synchronous code of the system under test with panic capture.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Out<T> {
    let was = IN_SIM.replace(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SIM.set(was);
    match r {
        Ok(v) => Out::Done(v),
        Err(e) => {
            if e.downcast_ref::<&str>() == Some(&HUNG) {
                Out::Hung
            } else {
                Out::Panicked(LAST_PANIC.with(|l| l.borrow().clone()))
            }
        }
    }
}

pub struct FlagWaker(pub AtomicBool);
impl Wake for FlagWaker {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::Relaxed);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::Relaxed);
    }
}

/// Drive a future whose only await points are simulated flash accesses.
pub fn drive<F: Future>(core: &CoreRef, fut: F) -> Out<F::Output> {
    let mut cx = Context::from_waker(Waker::noop());
    let r = guarded(|| {
        let mut fut = pin!(fut);
        let mut spins = 0u64;
        loop {
            match fut.as_mut().poll(&mut cx) {
                Poll::Ready(v) => return Out::Done(v),
                Poll::Pending => {
                    match core.borrow().interrupted {
                        Interrupted::Power => return Out::PowerLost,
                        Interrupted::Cancel => return Out::Cancelled,
                        Interrupted::No => {}
                    }
                    spins += 1;
                    if spins > 100_000_000 {
                        return Out::Hung;
                    }
                }
            }
        }
    });
    match r {
        Out::Done(o) => o,
        Out::Panicked(m) => Out::Panicked(m),
        Out::Hung => Out::Hung,
        Out::Cancelled => Out::Cancelled,
        Out::PowerLost => Out::PowerLost,
    }
}

/// Await one step of a longer operation. If it is cancelled and `resume` is set only this step is dropped (None).
pub async fn step<F: Future>(core: &CoreRef, resume: bool, fut: F) -> Option<F::Output> {
    let mut fut = pin!(fut);
    std::future::poll_fn(|cx| match fut.as_mut().poll(cx) {
        Poll::Ready(v) => Poll::Ready(Some(v)),
        Poll::Pending if resume && core.borrow().interrupted == Interrupted::Cancel => {
            core.borrow_mut().interrupted = Interrupted::No;
            Poll::Ready(None)
        }
        Poll::Pending => Poll::Pending,
    })
    .await
}

/// How often failing steps of an iteration are repeated
pub struct Retry {
    pub left: usize,
    /// buffer for the next try
    pub longer: Option<Buf>,
}

impl Retry {
    pub fn new(left: usize) -> Self {
        Self { left, longer: None }
    }
    /// Give up (Err) or have the step repeated
    pub fn note(&mut self, e: E, errs: &mut Vec<E>) -> Result<(), E> {
        if self.left == 0 {
            return Err(e);
        }
        self.left -= 1;
        if let E::BufTooSmall(n) = e {
            self.longer = Some(Buf::new(n.min(1 << 20)));
        }
        errs.push(e);
        Ok(())
    }
}

/// Drive a task that also waits for signals. It is polled only after its waker was called; when nothing is left
/// to do `idle` may cause something (an interrupt) and returns false if it has nothing more.
/// Done(None): the system is idle.
pub fn drive_task<F: Future>(core: &CoreRef, fut: F, idle: &mut dyn FnMut() -> bool) -> Out<Option<F::Output>> {
    let flag = Arc::new(FlagWaker(AtomicBool::new(true)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let r = guarded(|| {
        let mut fut = pin!(fut);
        let mut polls = 0u64;
        loop {
            if flag.0.swap(false, Ordering::Relaxed) {
                polls += 1;
                if polls > 1_000_000 {
                    return Out::Hung;
                }
                if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
                    return Out::Done(Some(v));
                }
                match core.borrow().interrupted {
                    Interrupted::Power => return Out::PowerLost,
                    Interrupted::Cancel => return Out::Cancelled,
                    Interrupted::No => {}
                }
            } else if !idle() {
                return Out::Done(None);
            }
        }
    });
    match r {
        Out::Done(o) => o,
        Out::Panicked(m) => Out::Panicked(m),
        _ => Out::Hung,
    }
}
