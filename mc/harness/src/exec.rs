//! Strict single-task executor: a future is polled only when it has been woken; if it is neither finished nor woken,
//! the environment may complete delayed core operations; if it has none, the task hangs.
use hypercore::mc::CoreHandle;
use std::cell::RefCell;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}
impl Flag {
    pub fn new() -> Arc<Flag> {
        Arc::new(Flag(AtomicBool::new(true)))
    }
    pub fn take(&self) -> bool {
        self.0.swap(false, SeqCst)
    }
    pub fn get(&self) -> bool {
        self.0.load(SeqCst)
    }
}

thread_local! {
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{m}{at}")));
        if GUARDED.with(|g| g.get()) == 0 {
            eprintln!("the explorer panicked: {m}{at}");
        }
        if std::env::var_os("MC_BT").is_some() {
            eprintln!("{m}{at}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}

/// How an execution ended other than with a value
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Bad {
    Panic(String),
    Hang,
    Livelock,
}
impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Bad::Panic(m) => write!(f, "panicked: {m}"),
            Bad::Hang => write!(f, "never completes: not woken and nothing outstanding"),
            Bad::Livelock => write!(f, "never completes: exceeded its step limit"),
        }
    }
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Bad> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    match r {
        Ok(t) => Ok(t),
        Err(_) if mcrt::exhausted() => Err(Bad::Livelock),
        Err(_) => Err(Bad::Panic(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())),
    }
}

pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>, flag: &Arc<Flag>) -> Result<Poll<F::Output>, Bad> {
    let waker = Waker::from(flag.clone());
    catch(move || f.poll(&mut Context::from_waker(&waker)))
}

pub const STEP_LIMIT: u64 = 200_000;

/// Run to completion.
pub fn run<F: Future>(core: &CoreHandle, f: F) -> Result<F::Output, Bad> {
    let limit = STEP_LIMIT.max(core.with(|c| c.log.blocks.len()) as u64 * 100);
    mcrt::budget(limit);
    let mut f = Box::pin(f);
    let flag = Flag::new();
    let mut polls = 0u64;
    let mut spins = 0u64;
    loop {
        // a task that keeps waking itself while it waits for the core must not starve the core
        spins = if core.with(|c| c.parked.is_empty()) { 0 } else { spins + 1 };
        if spins > 50 {
            spins = 0;
            core.release();
        }
        if !flag.take() {
            if !core.release() || !flag.take() {
                std::mem::forget(catch(move || drop(f)));
                return Err(Bad::Hang);
            }
        }
        polls += 1;
        if polls > limit {
            let _ = catch(move || drop(f));
            return Err(Bad::Livelock);
        }
        match poll_once(f.as_mut(), &flag) {
            Ok(Poll::Ready(v)) => return Ok(v),
            Ok(Poll::Pending) => (),
            Err(e) => {
                let _ = catch(move || drop(f));
                return Err(e);
            }
        }
    }
}

/// Poll at most `n` times (when woken). Returns the value if it finished.
pub fn run_polls<F: Future + ?Sized>(core: &CoreHandle, f: &mut Pin<Box<F>>, flag: &Arc<Flag>, n: usize) -> Result<Option<F::Output>, Bad> {
    mcrt::budget(STEP_LIMIT);
    for _ in 0..n {
        if !flag.take() && (!core.release() || !flag.take()) {
            return Err(Bad::Hang);
        }
        if let Poll::Ready(v) = poll_once(f.as_mut(), flag)? {
            return Ok(Some(v));
        }
    }
    Ok(None)
}
