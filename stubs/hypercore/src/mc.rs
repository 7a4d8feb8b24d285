//! The explorer's side of the stand-in: a shared log whose answers it decides.
use crate::{AppendOutcome, HypercoreError, Info};
use std::any::Any;
use std::collections::BTreeSet;
use std::future::poll_fn;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

/// Blocks `base .. base + blocks.len()`; blocks below `base` do not exist here (they read as missing).
#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Log {
    pub base: u64,
    pub blocks: Vec<Arc<[u8]>>,
}

impl Log {
    pub fn len(&self) -> u64 {
        self.base + self.blocks.len() as u64
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn push(&mut self, b: &[u8]) {
        self.blocks.push(Arc::from(b))
    }
    pub fn get(&self, i: u64) -> Option<&Arc<[u8]>> {
        let i = i.checked_sub(self.base)?;
        self.blocks.get(usize::try_from(i).ok()?)
    }
    pub fn prefix(&self, len: u64) -> Log {
        Log {
            base: self.base,
            blocks: self.blocks[..(len - self.base) as usize].to_vec(),
        }
    }
}

/// What a read of a missing block does
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Missing {
    /// answer "not here"
    #[default]
    None,
    /// wait until it arrives
    Wait,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    Get(u64),
    Append(u64),
}

#[derive(Default)]
pub struct CoreState {
    pub log: Log,
    pub missing: BTreeSet<u64>,
    pub on_missing: Missing,
    /// operation numbers (0-based, reads and appends counted together since `ops` was reset) that fail
    pub fail: BTreeSet<u64>,
    /// all reads of these blocks fail
    pub bad: BTreeSet<u64>,
    /// operation numbers that are delayed until the environment completes them
    pub pend: BTreeSet<u64>,
    /// delay every operation
    pub pend_all: bool,
    pub ops: u64,
    /// requests that were not answered with what was asked for
    pub failed: u64,
    /// how often the core was asked whether it has a block, and it did not
    pub has_not: u64,
    pub trace: Option<Vec<Event>>,
    pub parked: Vec<Waker>,
    released: u64,
    pub file: Option<PathBuf>,
    /// made by `HypercoreBuilder::build`
    pub(crate) built: bool,
    /// streams handed to `ReplicatingCore::add_stream`, with the initiator flag
    pub streams: Vec<(Box<dyn Any + Send>, bool)>,
    pub followers: Vec<CoreHandle>,
}

thread_local! {
    static BUILT: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
static BUILT_ANYWHERE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
/// How many cores that `HypercoreBuilder::build` made on this thread exist
pub fn built() -> i64 {
    BUILT.with(|b| b.get())
}
/// the same, on all threads
pub fn built_anywhere() -> i64 {
    BUILT_ANYWHERE.load(std::sync::atomic::Ordering::SeqCst)
}
pub(crate) fn count_built(by: i64) {
    BUILT_ANYWHERE.fetch_add(by, std::sync::atomic::Ordering::SeqCst);
    let _ = BUILT.try_with(|b| b.set(b.get() + by));
}
impl Drop for CoreState {
    fn drop(&mut self) {
        if self.built {
            count_built(-1)
        }
    }
}

/// Shared between hyperbee (through `SharedCore`) and the explorer
#[derive(Clone)]
pub struct CoreHandle(Arc<Mutex<CoreState>>);

impl std::fmt::Debug for CoreHandle {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "CoreHandle(..)")
    }
}

fn injected() -> HypercoreError {
    HypercoreError::InvalidOperation { context: "injected by the explorer".into() }
}

impl CoreHandle {
    pub fn new(log: Log) -> Self {
        CoreHandle(Arc::new(Mutex::new({ let mut c = CoreState::default(); c.log = log; c })))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut CoreState) -> R) -> R {
        f(&mut self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
    /// How many users this core has, including the caller
    pub fn refs(&self) -> usize {
        Arc::strong_count(&self.0)
    }
    pub fn log(&self) -> Log {
        self.with(|c| c.log.clone())
    }
    pub fn len(&self) -> u64 {
        self.with(|c| c.log.len())
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    /// Reset the operation counter and all plans
    pub fn plan_reset(&self) {
        self.with(|c| {
            c.ops = 0;
            c.failed = 0;
            c.has_not = 0;
            c.fail.clear();
            c.pend.clear();
            c.pend_all = false;
            c.bad.clear();
        })
    }
    /// Complete all delayed operations. Returns whether there were any.
    pub fn release(&self) -> bool {
        let w = self.with(|c| {
            c.released += 1;
            std::mem::take(&mut c.parked)
        });
        let any = !w.is_empty();
        w.into_iter().for_each(Waker::wake);
        any
    }
    /// A block arrives
    pub fn deliver(&self, seq: u64) {
        self.with(|c| {
            c.missing.remove(&seq);
        });
        self.release();
    }

    pub(crate) fn info(&self) -> Info {
        self.with(|c| Info {
            length: c.log.len(),
            byte_length: c.log.blocks.iter().map(|b| b.len() as u64).sum(),
            contiguous_length: match c.missing.iter().next() {
                Some(m) => *m,
                None => c.log.len(),
            },
            fork: 0,
            writeable: true,
        })
    }

    pub(crate) fn has(&self, i: u64) -> bool {
        self.with(|c| {
            let has = c.log.get(i).is_some() && !c.missing.contains(&i);
            c.has_not += !has as u64;
            has
        })
    }

    /// Take an operation number; wait if the plan delays it; say whether it fails.
    async fn admit(&self) -> bool {
        let (n, pend, rel) = self.with(|c| {
            let n = c.ops;
            c.ops += 1;
            (n, c.pend_all || c.pend.contains(&n), c.released)
        });
        if pend {
            poll_fn(|cx| {
                self.with(|c| {
                    if c.released > rel {
                        Poll::Ready(())
                    } else {
                        c.parked.push(cx.waker().clone());
                        Poll::Pending
                    }
                })
            })
            .await
        }
        self.with(|c| {
            let f = c.fail.contains(&n);
            c.failed += f as u64;
            f
        })
    }

    pub(crate) async fn get(&self, i: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        mcrt::point(mcrt::Kind::Core).await;
        if self.admit().await {
            return Err(injected());
        }
        poll_fn(|cx| {
            mcrt::step();
            self.with(|c| {
                if c.bad.contains(&i) {
                    c.failed += 1;
                    return Poll::Ready(Err(injected()));
                }
                if c.missing.contains(&i) {
                    return match c.on_missing {
                        Missing::None => {
                            c.failed += 1;
                            Poll::Ready(Ok(None))
                        }
                        Missing::Wait => {
                            c.parked.push(cx.waker().clone());
                            Poll::Pending
                        }
                    };
                }
                if let Some(t) = &mut c.trace {
                    t.push(Event::Get(i));
                }
                Poll::Ready(Ok(c.log.get(i).map(|b| b.to_vec())))
            })
        })
        .await
    }

    pub(crate) async fn append(&self, data: &[&[u8]]) -> Result<AppendOutcome, HypercoreError> {
        mcrt::point(mcrt::Kind::Core).await;
        if self.admit().await {
            return Err(injected());
        }
        let (out, followers) = self.with(|c| {
            if let Some(f) = &c.file {
                use std::io::Write;
                let mut f = std::fs::OpenOptions::new().append(true).open(f)?;
                for d in data {
                    f.write_all(&(d.len() as u32).to_le_bytes())?;
                    f.write_all(d)?;
                }
                f.flush()?;
            }
            for d in data {
                if let Some(t) = &mut c.trace {
                    t.push(Event::Append(c.log.len()));
                }
                c.log.push(d);
            }
            Ok::<_, HypercoreError>((
                AppendOutcome {
                    length: c.log.len(),
                    byte_length: c.log.blocks.iter().map(|b| b.len() as u64).sum(),
                },
                c.followers.clone(),
            ))
        })?;
        for f in followers {
            f.mirror(self);
        }
        // the data is stored, but the caller has not been told yet
        mcrt::point(mcrt::Kind::Core).await;
        Ok(out)
    }

    /// Become a copy of `other`'s log, everything available
    pub fn mirror(&self, other: &CoreHandle) {
        let log = other.log();
        self.with(|c| {
            if log.len() > c.log.len() {
                c.log = log
            }
        });
        self.release();
    }
}
