//! Stateless exploration of the interleavings of several tasks on the real store, with a bound on preemptions.
//!
//! Every lock acquisition and every core operation is a scheduling point. An execution is determined by the choices
//! made where there is one; after the given prefix of choices, the running task goes on as long as it can. The explorer
//! enumerates all prefixes whose number of preemptions is within the bound.
use crate::exec::{self, Bad, Flag};
use crate::ops::*;
use crate::raw;
use crate::report::Ctx;
use crate::script::{self, logser, Script};
use hypercore::mc::{CoreHandle, Log};
use mcrt::{At, Mode};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Task {
    pub h: usize,
    pub ops: Vec<Op>,
}

/// What the owner of a task may do to it, once, between two polls
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Stop {
    /// drop it
    Drop,
    /// never poll it again, but keep it
    Forget,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    #[serde(with = "logser")]
    pub log: Log,
    pub tasks: Vec<Task>,
    /// each handle is opened on the core separately
    pub handles: usize,
    pub warm: bool,
    /// scheduling points: before lock acquisitions / core operations / inside critical sections
    pub lock: bool,
    pub core: bool,
    pub hold: bool,
    /// core operations are delayed until no task can run
    pub pend: bool,
    /// a task that may be stopped at any point
    pub stop: Option<(usize, Stop)>,
    /// compare results with sequential orders
    pub linear: bool,
    /// format the handles between any two polls
    #[serde(default)]
    pub show: bool,
    /// every choice but the first costs, not just preemptions
    #[serde(default)]
    pub delay: bool,
    /// numbers of the core operations that fail; the operation that performs one must report an error and have no effect
    #[serde(default)]
    pub fail: Vec<u64>,
    /// the handles of subs the tasks use
    #[serde(default)]
    pub keep: Keep,
    pub choices: Vec<u8>,
}

impl Sched {
    pub fn new(log: Log, tasks: Vec<Vec<Op>>) -> Sched {
        Sched {
            log,
            tasks: tasks.into_iter().map(|ops| Task { h: 0, ops }).collect(),
            handles: 1,
            warm: false,
            lock: true,
            core: true,
            hold: false,
            pend: false,
            stop: None,
            linear: true,
            show: false,
            delay: false,
            fail: vec![],
            keep: Keep::No,
            choices: vec![],
        }
    }
}

/// One operation as it was observed; times are numbers of polls
#[derive(Clone, Debug)]
struct Rec {
    task: usize,
    op: Op,
    start: u64,
    end: u64,
    res: Option<Res>,
    /// one of its core operations failed
    hit: bool,
}

/// A decision that was made
pub struct Node {
    /// how many alternatives there were, and which one was taken
    n: u8,
    took: u8,
    /// whether taking another one (other than 0) costs a preemption; the last alternative, if `stop`, never does
    cost: bool,
    stop: bool,
}

const SPIN: u32 = 12;

type Fut = Pin<Box<dyn Future<Output = ()>>>;

pub struct Exec {
    pub trace: Vec<Node>,
    pub hash: u64,
    pub polls: u64,
    pub final_log: u64,
}

fn hash(x: impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn run(sc: &Sched) -> Result<(u64, u64), String> {
    execute(sc, &mut HashSet::new(), &mut vec![]).map(|e| (e.hash, e.polls))
}

fn execute(sc: &Sched, seen: &mut HashSet<u64>, trace: &mut Vec<Node>) -> Result<Exec, String> {
    execute_and(sc, seen, trace, &|_| ())
}

/// The same; `ran` looks at the core once the tasks have completed
fn execute_and(sc: &Sched, seen: &mut HashSet<u64>, trace: &mut Vec<Node>, ran: &dyn Fn(&CoreHandle)) -> Result<Exec, String> {
    mcrt::set_mode(Mode::Seq);
    let core = CoreHandle::new(sc.log.clone());
    let hbs: Vec<Rc<hyperbee::Hyperbee>> = (0..sc.handles).map(|_| Rc::new(script::open(&core))).collect();
    let subs: Vec<Option<Rc<Subs>>> = hbs.iter().map(|_| Subs::new(sc.keep)).collect();
    for task in &sc.tasks {
        for op in &task.ops {
            if let Some(s) = &subs[task.h] {
                if let Op::In(sub, _) = &*s.via(op) {
                    s.get(&hbs[task.h], sub);
                }
            }
        }
    }
    let spec = Spec::of_log(&sc.log);
    if sc.warm {
        for hb in &hbs {
            exec::run(&core, apply(hb, &Op::Traverse(Range::all()))).map_err(|b| format!("warming up: a full traversal {b}"))?;
        }
    }
    core.plan_reset();
    core.with(|c| {
        c.pend_all = sc.pend;
        c.fail.extend(sc.fail.iter());
    });
    let recs: Rc<RefCell<Vec<Rec>>> = Default::default();
    let clock: Rc<Cell<u64>> = Default::default();
    let mut tasks: Vec<Option<Fut>> = vec![];
    let mut flags = vec![];
    for (t, task) in sc.tasks.iter().enumerate() {
        let (hb, subs, ops, recs, clock) = (hbs[task.h].clone(), subs[task.h].clone(), task.ops.clone(), recs.clone(), clock.clone());
        tasks.push(Some(Box::pin(async move {
            for op in ops {
                let i = {
                    let mut r = recs.borrow_mut();
                    r.push(Rec { task: t, op: op.clone(), start: clock.get(), end: u64::MAX, res: None, hit: false });
                    r.len() - 1
                };
                let (opened, clock2) = (Rc::new(Cell::new(None)), clock.clone());
                let o2 = opened.clone();
                let res = apply_opened(&hb, subs.as_deref(), &op, &move || o2.set(Some(clock2.get()))).await;
                let mut r = recs.borrow_mut();
                r[i].end = opened.get().unwrap_or(clock.get());
                r[i].res = Some(res);
            }
        })));
        flags.push(Flag::new());
    }
    mcrt::explore_at(At { lock: sc.lock, core: sc.core, hold: sc.hold });
    mcrt::set_mode(Mode::Explore);
    mcrt::budget(exec::STEP_LIMIT);
    let look = || hbs.iter().try_for_each(|hb| crate::c_watch::show(&**hb));
    let r = drive(sc, &core, &mut tasks, &flags, &clock, &recs, trace, if sc.show { Some(&look) } else { None });
    mcrt::set_mode(Mode::Seq);
    ran(&core);
    mcrt::explore_at(At { lock: true, core: true, hold: false });
    let polls = clock.get();
    let out = r.and_then(|()| {
        core.plan_reset();
        let log = core.log();
        let recs = recs.borrow().clone();
        let all = |r: &Rec| format!("task {}: {:?} [{}..{}] -> {:?}{}", r.task, r.op, r.start, if r.end == u64::MAX { -1 } else { r.end as i64 }, r.res, if r.hit { " (the core failed)" } else { "" });
        let history = || recs.iter().map(all).collect::<Vec<_>>().join("; ");
        let h = hash(&log.blocks);
        if log.blocks.len() < sc.log.blocks.len() || log.blocks[..sc.log.blocks.len()] != sc.log.blocks[..] {
            return Err("existing blocks changed".into());
        }
        raw::check_tree(&log).map_err(|e| format!("the stored tree is invalid: {e}; history: {}", history()))?;
        let last = Spec { len: log.len(), map: raw::contents(&log)?.into_iter().map(|(k, s, v)| (k, (s, v))).collect(), header: raw::header_of(&log), streams: streams_of(&core) };
        if sc.linear {
            if let Some(first) = log.blocks.first() {
                if raw::decode_header(first).map_or(true, |h| h.protocol != b"hyperbee") {
                    return Err(format!("block 0 is not a header; history: {}", history()));
                }
            }
            if !linearizable(&spec, &recs, &last) {
                return Err(format!("no sequential order explains the results and the final contents {}; history: {}", show_spec(&last), history()));
            }
        }
        // what the handles see afterwards
        let fresh = seen.insert(h);
        let mut w = script::World::over(core.clone(), last);
        let mut see = Script::new(Log::default());
        see.stride = usize::MAX;
        for hb in &hbs {
            w.contents_of(hb, &see).map_err(|e| format!("afterwards, through a handle that was used: {e}; history: {}", history()))?;
        }
        if fresh {
            see.stride = 1;
            let hb = script::open(&core);
            w.contents_of(&hb, &see).map_err(|e| format!("afterwards, through a new handle: {e}; history: {}", history()))?;
            // and the store can be written
            let k = vec![0xfe, 0xfe];
            for op in [Op::Put(k.clone(), None), Op::Get(k.clone()), Op::Del(k)] {
                let want = w.spec.apply(&op).unwrap();
                match exec::run(&core, apply_opened(&hbs[0], subs[0].as_deref(), &op, &|| ())) {
                    Ok(got) if got == want => (),
                    Ok(got) => return Err(format!("afterwards, {op:?} returned {got:?}, expected {want:?}; history: {}", history())),
                    Err(b) => return Err(format!("afterwards, {op:?} {b}; history: {}", history())),
                }
            }
        }
        let results: Vec<_> = {
            let mut v: Vec<_> = recs.iter().map(|r| (r.task, r.res.clone())).collect();
            v.sort_by_key(|x| x.0);
            v
        };
        Ok(Exec { trace: vec![], hash: hash((h, results)), polls, final_log: h })
    });
    let d = exec::catch(move || drop(tasks));
    drop(exec::catch(move || drop((subs, hbs))));
    let out = out?;
    d.map_err(|b| format!("dropping the remaining tasks {b}"))?;
    Ok(out)
}

fn show_spec(s: &Spec) -> String {
    let keys: Vec<String> = s.map.iter().map(|(k, (seq, _))| format!("{}@{seq}", hex::enc(k))).collect();
    format!("(length {}: {})", s.len, keys.join(" "))
}

type Look<'a> = Option<&'a dyn Fn() -> Result<(), String>>;

#[allow(clippy::too_many_arguments)]
fn drive(sc: &Sched, core: &CoreHandle, tasks: &mut [Option<Fut>], flags: &[std::sync::Arc<Flag>], clock: &Cell<u64>, recs: &RefCell<Vec<Rec>>, trace: &mut Vec<Node>, look: Look) -> Result<(), String> {
    let n = tasks.len();
    let mut cur: Option<usize> = None;
    // polls without progress, per task; a task that only spins gives way to the others
    let mut spin = vec![0u32; n];
    // the last poll of a task ended at a scheduling point (else it goes on at once)
    let mut at_point = vec![true; n];
    let mut held = vec![false; n];
    let mut stopped = vec![false; n];
    let mut did_stop = false;
    let mut forced = false;
    loop {
        if let Some(look) = look {
            look()?;
        }
        let live: Vec<usize> = (0..n).filter(|&t| tasks[t].is_some() && !stopped[t]).collect();
        if live.is_empty() {
            return Ok(());
        }
        let mut enabled: Vec<usize> = live.iter().copied().filter(|&t| flags[t].get() && spin[t] < SPIN).collect();
        if enabled.is_empty() {
            let spinning: Vec<usize> = live.iter().copied().filter(|&t| flags[t].get()).collect();
            let any = core.release();
            for t in &spinning {
                spin[*t] = 0;
            }
            if !any && (spinning.is_empty() || spinning.len() == live.len() && forced) {
                let who: Vec<String> = live.iter().map(|t| format!("task {t}")).collect();
                let how = if spinning.is_empty() { "deadlock: waiting for ever" } else { "never completes: polls itself without progress" };
                return Err(format!("{}: {how}{}", who.join(" and "), if did_stop { " after a task was stopped" } else { "" }));
            }
            forced = !any;
            continue;
        }
        let same = cur.filter(|c| enabled.contains(c));
        if let Some(c) = same {
            enabled.retain(|t| *t != c);
            enabled.insert(0, c);
        }
        // stopping the task: when it is its turn, outside of critical sections
        // (a stream that waits for a lock wakes itself: its polls without progress count as one wait)
        let can_stop = !did_stop && matches!(sc.stop, Some((t, _)) if live.contains(&t) && !held[t] && clock.get() > 0 && (cur == Some(t)));
        let options = enabled.len() + can_stop as usize;
        let mut pick = 0;
        let quiet = same.is_some_and(|c| !at_point[c]);
        if options > 1 && !quiet {
            let i = trace.len();
            let took = sc.choices.get(i).copied().unwrap_or(0);
            if took as usize >= options {
                return Err("internal: the schedule does not replay".into());
            }
            pick = took as usize;
            trace.push(Node { n: options as u8, took, cost: same.is_some() || sc.delay, stop: can_stop });
        }
        if pick == enabled.len() {
            let (t, how) = sc.stop.unwrap();
            did_stop = true;
            match how {
                Stop::Drop => {
                    let f = tasks[t].take();
                    exec::catch(move || drop(f)).map_err(|b| format!("dropping task {t} {b}"))?;
                }
                Stop::Forget => stopped[t] = true,
            }
            continue;
        }
        let t = enabled[pick];
        cur = Some(t);
        clock.set(clock.get() + 1);
        if clock.get() > exec::STEP_LIMIT {
            return Err(Bad::Livelock.to_string());
        }
        let before = mcrt::steps();
        flags[t].take();
        let at = recs.borrow().iter().rposition(|r| r.task == t);
        let failed = core.with(|c| c.failed);
        let r = exec::poll_once(tasks[t].as_mut().unwrap().as_mut(), &flags[t]).map_err(|b| format!("task {t}: {:?} {b}", sc.tasks[t].ops))?;
        if core.with(|c| c.failed) > failed {
            // (a poll performs at most one core operation, as its first step)
            if let Some(i) = at {
                recs.borrow_mut()[i].hit = true;
            }
        }
        held[t] = mcrt::take_holding();
        at_point[t] = mcrt::take_stopped();
        if r.is_ready() {
            tasks[t] = None;
        }
        if r.is_ready() || at_point[t] || mcrt::steps() != before {
            spin.iter_mut().for_each(|s| *s = 0);
            forced = false;
        } else {
            spin[t] += 1;
        }
    }
}

/// Is there an order of the operations, consistent with real time, in which the specification gives these results and
/// ends with these contents? Unfinished operations may or may not have taken effect.
fn linearizable(spec: &Spec, recs: &[Rec], last: &Spec) -> bool {
    fn slow(spec: &Spec, recs: &[Rec], done: u64, last: &Spec) -> bool {
        if recs.iter().enumerate().all(|(i, r)| done >> i & 1 == 1 || r.res.is_none()) && spec == last {
            return true;
        }
        let first_end = recs.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, r)| r.end).min().unwrap_or(u64::MAX);
        for (i, r) in recs.iter().enumerate() {
            if done >> i & 1 == 1 || r.start > first_end {
                continue;
            }
            if spec.len == 0 && matches!(on_parent(&r.op), Op::Put(..) | Op::PutCas(..)) {
                let mut s = spec.clone();
                s.plain_header();
                if slow(&s, recs, done, last) {
                    return true;
                }
            }
            if r.hit {
                let reported = r.res.as_ref().map_or(true, Res::is_err);
                if reported && slow(spec, recs, done | 1 << i, last) {
                    return true;
                }
                continue;
            }
            let mut s = spec.clone();
            let want = s.apply(&r.op);
            let ok = match (&r.res, &want) {
                (Some(got), Some(want)) => script::res_eq(want, got),
                _ => true,
            };
            if ok && slow(&s, recs, done | 1 << i, last) {
                return true;
            }
        }
        false
    }
    slow(spec, recs, 0, last)
}

/// How many core operations an execution without preemptions performs
pub fn core_ops(sc: &Sched) -> u64 {
    let n = Cell::new(0);
    let _ = execute_and(sc, &mut HashSet::new(), &mut vec![], &|c| n.set(c.with(|c| c.ops)));
    n.get()
}

/// The largest number of preemptions, at most `max` but at least 1, with which about `budget` schedules result
fn fit(points: usize, tasks: usize, max: usize, budget: u64) -> usize {
    let n = (points as f64 + 1.0) * (tasks - 1) as f64;
    let (mut total, mut term, mut b) = (1.0, 1.0, 0);
    while b < max {
        term *= n / (b + 1) as f64;
        total += term;
        if b >= 1 && total > budget as f64 {
            break;
        }
        b += 1;
    }
    b
}

/// Explore all schedules of `base` with at most `max` preemptions; fewer if there would be more than about `budget`
/// schedules (which bound applied to how many programs is counted).
pub fn explore(ctx: &Ctx, base: &Sched, max: usize, budget: u64) -> u64 {
    explore_as(ctx, base, max, budget, "sched", |s| s.clone())
}

/// The same, the cases being recorded as something else
pub fn explore_as<T: Serialize>(ctx: &Ctx, base: &Sched, max: usize, budget: u64, kind: &'static str, wrap: impl Fn(&Sched) -> T) -> u64 {
    let mut first = vec![];
    let _ = execute(base, &mut HashSet::new(), &mut first);
    // stopping a task multiplies the schedules by the number of its points
    let budget = if base.stop.is_some() { budget / (first.len() as u64 / 2 + 1) } else { budget };
    let bound = fit(first.len(), base.tasks.len(), max, budget);
    ctx.count(&format!("programs_with_preemption_bound_{bound}"), 1);
    let mut seen = HashSet::new();
    let mut outcomes = HashSet::new();
    let mut stack: Vec<Vec<u8>> = vec![vec![]];
    let (mut n, mut points) = (0u64, 0u64);
    while let Some(choices) = stack.pop() {
        if ctx.stopped() {
            break;
        }
        let mut sc = base.clone();
        sc.choices = choices;
        let mut trace = vec![];
        ctx.case(kind, &wrap(&sc), |_| {
            let r = execute(&sc, &mut seen, &mut trace);
            r.map(|e| {
                outcomes.insert(e.hash);
                (e.hash, e.polls)
            })
        });
        n += 1;
        // alternatives after the prefix
        let from = sc.choices.len();
        points += (trace.len() - from.min(trace.len())) as u64 + 1;
        let mut spent = 0;
        let costs = |nd: &Node, c: u8| nd.cost && c > 0 && !(nd.stop && c == nd.n - 1);
        for nd in &trace[..from.min(trace.len())] {
            spent += costs(nd, nd.took) as usize;
        }
        for i in from..trace.len() {
            let nd = &trace[i];
            for c in 1..nd.n {
                if spent + costs(nd, c) as usize <= bound {
                    let mut p: Vec<u8> = trace[..i].iter().map(|x| x.took).collect();
                    p.push(c);
                    stack.push(p);
                }
            }
        }
    }
    ctx.count("states", points);
    ctx.count("schedules", n);
    ctx.count("programs", 1);
    outcomes.len() as u64
}
