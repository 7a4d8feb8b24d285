//! C29: watching the library (tracing, formatting its objects) changes nothing.
use crate::c_fault::{all_ops, exact, measure, some_ops, two_and_three_levels};
use crate::c_sched;
use crate::exec;
use crate::ops::*;
use crate::report::Ctx;
use crate::sched::{self, Sched};
use crate::script::{self, Plan, Script, Step, Want};
use crate::shapes::{self, State};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt::{self, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use tracing::{span, Dispatch, Event, Level, Metadata, Subscriber};

/// Who is watching
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Who {
    /// 1 (errors) to 5 (everything)
    pub level: u8,
    pub spans: bool,
    pub events: bool,
    /// also format the objects themselves
    pub show: bool,
}
pub const ALL: Who = Who { level: 5, spans: true, events: true, show: true };

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Watched {
    pub who: Who,
    pub script: Script,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WatchedSched {
    pub who: Who,
    pub sched: Sched,
}

thread_local! {
    /// how much this thread has formatted on behalf of watchers
    static SEEN: Cell<u64> = const { Cell::new(0) };
}
static TOTAL: AtomicU64 = AtomicU64::new(0);

/// Text that nobody keeps
struct Sink(u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
impl Drop for Sink {
    fn drop(&mut self) {
        SEEN.with(|s| s.set(s.get() + self.0))
    }
}
struct Watcher {
    who: Who,
    next: AtomicU64,
}
struct Fields(Sink);
impl tracing::field::Visit for Fields {
    fn record_debug(&mut self, field: &tracing::field::Field, value: &dyn fmt::Debug) {
        let _ = write!(self.0, "{}={value:?}", field.name());
    }
}
impl Watcher {
    fn level(&self) -> Level {
        [Level::ERROR, Level::WARN, Level::INFO, Level::DEBUG, Level::TRACE][self.who.level as usize - 1]
    }
}
impl Subscriber for Watcher {
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        *m.level() <= self.level() && (m.is_span() && self.who.spans || m.is_event() && self.who.events)
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        a.record(&mut Fields(Sink(0)));
        span::Id::from_u64(self.next.fetch_add(1, Relaxed) + 1)
    }
    fn record(&self, _: &span::Id, r: &span::Record<'_>) {
        r.record(&mut Fields(Sink(0)));
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        e.record(&mut Fields(Sink(0)));
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}

fn watched<T>(who: Who, f: impl FnOnce() -> T) -> T {
    thread_local! {
        static BY: RefCell<HashMap<Who, Dispatch>> = Default::default();
    }
    let d = BY.with(|b| b.borrow_mut().entry(who).or_insert_with(|| Dispatch::new(Watcher { who, next: AtomicU64::new(0) })).clone());
    let r = tracing::dispatcher::with_default(&d, f);
    TOTAL.fetch_add(SEEN.with(|s| s.take()), Relaxed);
    r
}

/// Format an object, both ways
pub fn show(x: &impl fmt::Debug) -> Result<(), String> {
    exec::catch(|| {
        let _ = write!(Sink(0), "{x:?}");
    })
    .map_err(|b| format!("formatting a store {b}"))
}

pub fn run(w: &Watched) -> Result<(u64, u64), String> {
    watched(w.who, || script::run_looking(&w.script, w.who.show)).map_err(|e| format!("while being watched: {e}"))
}
pub fn run_sched(w: &WatchedSched) -> Result<(u64, u64), String> {
    watched(w.who, || sched::run(&w.sched)).map_err(|e| format!("while being watched: {e}"))
}

pub fn go(ctx: &Ctx, who: Who, script: Script) {
    ctx.case("watched", &Watched { who, script }, run);
}

pub fn c29(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut states = shapes::reachable(ctx, if t { 26 } else { 20 });
    states.push(shapes::state(shapes::header_only()));
    let reached = states.len();
    states.extend(two_and_three_levels());
    states.push(shapes::build(&shapes::Shape::uniform(3, 4)));
    ctx.count("states", states.len() as u64);
    let whos: Vec<Who> = (1..=5u8)
        .flat_map(|level| [(true, true), (true, false), (false, true)].map(|(spans, events)| Who { level, spans, events, show: level == 5 || level == 3 }))
        .collect();
    let ops_of = |i: usize, s: &State| {
        let mut v = if i < reached { all_ops(&s.spec) } else { some_ops(&s.spec, if t { 300 } else { 60 }) };
        v.extend([Op::Height, Op::Version, Op::AddStream(1, true), Op::Header(None)]);
        if s.spec.len > 1 && !s.spec.map.keys().any(|k| std::str::from_utf8(k).is_err()) {
            v.push(Op::Print);
        }
        v
    };

    // every operation from every shape, watched in every way; delayed, failing and dropped ones
    let mut work = vec![];
    for (i, s) in states.iter().enumerate() {
        for op in ops_of(i, s) {
            work.push((i, op));
        }
    }
    ctx.par(&work, |(i, op)| {
        let s = &states[*i];
        let base = |warm: bool| {
            let mut sc = Script::new(s.log.clone());
            sc.warm = warm;
            sc.bytes = true;
            sc.len = true;
            sc.stride = 5;
            sc
        };
        for warm in [false, true] {
            let mut sc = base(warm);
            sc.steps = vec![exact(op.clone()), Step::Check { h: 0 }];
            for who in &whos {
                if s.spec.map.len() <= 10 || t || who.level >= 3 {
                    go(ctx, *who, sc.clone());
                }
            }
            if s.spec.map.len() > 12 && !t {
                continue;
            }
            let (n, polls) = measure(&s.log, warm, op);
            for f in 0..n {
                let mut sc = base(warm);
                sc.bytes = false;
                sc.len = false;
                sc.steps = vec![Step::Do { h: 0, op: op.clone(), want: Want::ErrIfHit, plan: Plan { fail: vec![f], ..Plan::default() } }, Step::Check { h: 0 }];
                go(ctx, ALL, sc.clone());
                sc.steps = vec![Step::Do { h: 0, op: op.clone(), want: Want::Exact, plan: Plan { pend: vec![f], ..Plan::default() } }, Step::Check { h: 0 }];
                go(ctx, ALL, sc);
            }
            if op.mutates() || polls < 60 {
                for k in 1..=polls {
                    let mut sc = base(warm);
                    sc.bytes = false;
                    sc.len = false;
                    sc.steps = vec![Step::Cancel { h: 0, op: op.clone(), polls: k }, Step::Check { h: 0 }];
                    go(ctx, ALL, sc);
                }
            }
        }
    });
    ctx.note("one operation, watched");

    // two operations after one another
    let mut work = vec![];
    for (i, s) in states.iter().enumerate().take(reached) {
        if s.spec.map.len() <= if t { 17 } else { 13 } {
            for op in shapes::mutations(&s.spec) {
                work.push((i, op));
            }
        }
    }
    ctx.par(&work, |(i, op)| {
        let s = &states[*i];
        let mut spec = s.spec.clone();
        spec.apply(op);
        for second in ops_of(0, &State { spec, ..s.clone() }) {
            let mut sc = Script::new(s.log.clone());
            sc.bytes = true;
            sc.stride = 3;
            sc.steps = vec![exact(op.clone()), exact(second), Step::Check { h: 0 }];
            go(ctx, ALL, sc);
        }
    });
    ctx.note("two operations, watched");

    crate::c_map::watched(ctx);
    ctx.note("awkward keys, long logs and histories, watched");

    // together
    let budget = if t { 20_000 } else { 400 };
    let mut progs = vec![];
    let stores = c_sched::stores();
    for (_, s) in &stores {
        let mut all = c_sched::writes(&s.spec);
        let w = all.len();
        all.extend(c_sched::reads(&s.spec));
        all.extend(c_sched::rest(&s.spec));
        for (i, a) in all.iter().enumerate().take(w) {
            for b in &all[i..] {
                for hold in [false, true] {
                    let mut sc = Sched::new(s.log.clone(), vec![vec![a.clone()], vec![b.clone()]]);
                    sc.warm = !hold;
                    sc.hold = hold;
                    sc.linear = false;
                    sc.show = true;
                    progs.push(sc);
                }
            }
        }
    }
    ctx.par(&progs, |sc| {
        watched(ALL, || {
            sched::explore_as(ctx, sc, if t { 2 } else { 1 }, budget, "watched_sched", |s| WatchedSched { who: ALL, sched: s.clone() });
        })
    });
    ctx.note(format!("two tasks, watched: {} programs, {} schedules", progs.len(), ctx.get("schedules")));

    // nobody watching, but the objects are formatted all the time
    ctx.par(&progs, |sc| {
        sched::explore(ctx, sc, 1, budget);
    });
    ctx.note(format!("two tasks, objects formatted at every point: {} programs, {} schedules", progs.len(), ctx.get("schedules")));
    ctx.count("bytes_formatted", TOTAL.load(Relaxed));
    assert!(TOTAL.load(Relaxed) > 0, "nothing was formatted: the check does not watch");
}
