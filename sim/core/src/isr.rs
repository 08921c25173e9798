//! Simulated interrupts. A "point" is an instant at which a real interrupt could run: before every outermost
//! critical section, around every flash access, and while everything is idle. The schedule says at which points
//! which interrupt fires; interrupts may be interrupted themselves at points inside of them.
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Default)]
struct State {
    points: i64,
    /// (point, id of the interrupt)
    pending: Vec<(i64, usize)>,
    handler: Option<Rc<dyn Fn(usize)>>,
    depth: u32,
    cs: u32,
}

thread_local! {
    static ST: RefCell<State> = RefCell::new(State::default());
}

/// Start counting points; `pending` holds the points at which interrupts fire.
pub fn begin(pending: Vec<(i64, usize)>, handler: Rc<dyn Fn(usize)>) {
    ST.with(|s| *s.borrow_mut() = State { pending, handler: Some(handler), ..State::default() });
}

/// Stop; returns the number of points passed.
pub fn end() -> i64 {
    ST.with(|s| std::mem::take(&mut *s.borrow_mut()).points)
}

pub fn point() {
    let (fire, handler) = ST.with(|s| {
        let mut s = s.borrow_mut();
        let Some(h) = s.handler.clone() else {
            return (vec![], None);
        };
        if s.cs > 0 {
            return (vec![], None);
        }
        let p = s.points;
        s.points += 1;
        let mut fire = vec![];
        if s.depth < 2 {
            let mut i = 0;
            while i < s.pending.len() {
                if s.pending[i].0 == p {
                    fire.push(s.pending.remove(i).1);
                } else {
                    i += 1;
                }
            }
        }
        if !fire.is_empty() {
            s.depth += 1;
        }
        (fire, Some(h))
    });
    if let (false, Some(h)) = (fire.is_empty(), handler) {
        for id in fire {
            h(id);
        }
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.depth = s.depth.saturating_sub(1);
        });
    }
}

struct SimCs;
critical_section::set_impl!(SimCs);
// SAFETY: every simulated system lives on one thread; interrupts run only at points outside of critical sections
unsafe impl critical_section::Impl for SimCs {
    unsafe fn acquire() {
        point();
        ST.with(|s| s.borrow_mut().cs += 1);
    }
    unsafe fn release(_: ()) {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.cs = s.cs.saturating_sub(1);
        });
    }
}
