//! The controlled runtime's view from below: scheduling points.
//!
//! Every lock acquisition (mc-tokio) and every core operation (stand-in hypercore) passes through [`point`].
//! Per OS thread, three modes:
//!  * `Free` (default): a point does nothing. Used when real tokio runs the code.
//!  * `Seq`: a point only counts towards the step limit (so that endless loops surface as a panic).
//!  * `Explore`: a point additionally suspends the task once (returns `Pending` after waking itself), which hands
//!    control to the explorer; it decides which task runs next.
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Free,
    Seq,
    Explore,
}

/// What kind of operation the task is about to perform.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Lock,
    Core,
    /// the task has just acquired a lock
    Hold,
}

thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Free) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static EXHAUSTED: Cell<bool> = const { Cell::new(false) };
    static AT: Cell<At> = const { Cell::new(At { lock: true, core: true, hold: false }) };
    static HOLDING: Cell<bool> = const { Cell::new(false) };
    static STOPPED: Cell<bool> = const { Cell::new(false) };
}

/// Which points suspend the task in mode `Explore`
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct At {
    /// before acquiring a lock
    pub lock: bool,
    /// before (and after) a core operation
    pub core: bool,
    /// right after acquiring a lock: a thread that is preempted while it holds the lock
    pub hold: bool,
}
pub fn explore_at(at: At) {
    AT.with(|a| a.set(at))
}
/// Whether the poll that just returned stopped inside a critical section. There, the task is in the hands of the
/// thread scheduler, not of its owner: it will go on, and cannot be dropped. Cleared by reading.
/// Whether the poll that just returned stopped at a scheduling point. Cleared by reading.
pub fn take_stopped() -> bool {
    STOPPED.with(|h| h.replace(false))
}
pub fn take_holding() -> bool {
    HOLDING.with(|h| h.replace(false))
}

/// Text of the panic raised when an operation exceeds its step limit.
pub const LIVELOCK: &str = "mc-step-limit: the operation does not terminate within its step limit";

pub fn mode() -> Mode {
    MODE.with(|m| m.get())
}
pub fn set_mode(m: Mode) {
    MODE.with(|c| c.set(m))
}
/// Reset the step counter and set its limit.
pub fn budget(limit: u64) {
    STEPS.with(|s| s.set(0));
    LIMIT.with(|l| l.set(limit));
    EXHAUSTED.with(|e| e.set(false));
}
pub fn steps() -> u64 {
    STEPS.with(|s| s.get())
}
/// Whether the step limit was hit since the last [`budget`].
pub fn exhausted() -> bool {
    EXHAUSTED.with(|e| e.get())
}

/// Count one step; panics when the limit is exceeded.
pub fn step() {
    if mode() == Mode::Free {
        return;
    }
    let n = STEPS.with(|s| {
        let n = s.get() + 1;
        s.set(n);
        n
    });
    if n > LIMIT.with(|l| l.get()) {
        EXHAUSTED.with(|e| e.set(true));
        if !std::thread::panicking() {
            panic!("{}", LIVELOCK);
        }
    }
}

pub struct Point {
    kind: Kind,
    yielded: bool,
}

impl Future for Point {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.yielded {
            return Poll::Ready(());
        }
        self.yielded = true;
        if self.kind != Kind::Hold {
            step();
        }
        let at = AT.with(|a| a.get());
        let on = match self.kind {
            Kind::Lock => at.lock,
            Kind::Core => at.core,
            Kind::Hold => at.hold,
        };
        if on && mode() == Mode::Explore {
            HOLDING.with(|h| h.set(self.kind == Kind::Hold));
            STOPPED.with(|h| h.set(true));
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(())
    }
}

/// A scheduling point.
pub fn point(kind: Kind) -> Point {
    Point { kind, yielded: false }
}
