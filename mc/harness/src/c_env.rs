//! C04, C16, C17, C20, C25, C26: stores that stop, are reopened, are incomplete, grow from elsewhere, are released.
use crate::c_fault::{all_ops, exact, measure, run, some_ops, two_and_three_levels};
use crate::exec::{self, Flag};
use crate::ops::*;
use crate::report::Ctx;
use crate::sched::{self, Sched};
use crate::script::{self, logser, Plan, Script, Step, Want, World};
use crate::shapes::{self, State};
use crate::{c_sched, raw};
use hypercore::mc::{CoreHandle, Log, Missing};
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

fn hash(x: impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------------------------------------------------------- C04

/// Operations on a store; afterwards every prefix of its log is reopened, looked at, and continued
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    #[serde(with = "logser")]
    pub log: Log,
    pub ops: Vec<Op>,
    /// in a storage directory
    pub disk: bool,
    /// only every n-th prefix is continued (all are looked at)
    pub stride: usize,
}

static DIRS: AtomicU64 = AtomicU64::new(0);

/// A scratch directory with the given log in it, removed when dropped
struct Dir(PathBuf);
impl Dir {
    fn new(log: &Log) -> Dir {
        let d = std::env::temp_dir().join(format!("mc-hist-{}-{}", std::process::id(), DIRS.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        if !log.is_empty() {
            std::fs::write(d.join("blocks"), Self::bytes(log)).expect("scratch file");
        }
        Dir(d)
    }
    fn bytes(log: &Log) -> Vec<u8> {
        let mut v = vec![];
        for b in &log.blocks {
            v.extend((b.len() as u32).to_le_bytes());
            v.extend_from_slice(b);
        }
        v
    }
    fn log(&self) -> Result<Log, String> {
        let bytes = self.stored();
        let mut log = Log::default();
        let mut rest = &bytes[..];
        while rest.len() >= 4 {
            let n = u32::from_le_bytes([rest[0], rest[1], rest[2], rest[3]]) as usize;
            log.push(rest.get(4..4 + n).ok_or("the storage ends within a block")?);
            rest = &rest[4 + n..];
        }
        Ok(log)
    }
    fn stored(&self) -> Vec<u8> {
        std::fs::read(self.0.join("blocks")).unwrap_or_default()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.0.join("blocks"));
        let _ = std::fs::remove_dir(&self.0);
    }
}

/// A store and where it is: its core (in memory), or only its handle (on disk)
struct At {
    hb: hyperbee::Hyperbee,
    core: CoreHandle,
    dir: Option<Dir>,
}

fn open_at(log: &Log, disk: bool) -> Result<At, String> {
    if disk {
        let dir = Dir::new(log);
        let hb = open_dir(&dir.0)?;
        // only used to drive operations; what the store has is in the directory
        Ok(At { hb, core: CoreHandle::new(Log::default()), dir: Some(dir) })
    } else {
        let core = CoreHandle::new(log.clone());
        Ok(At { hb: script::open(&core), core, dir: None })
    }
}
fn open_dir(dir: &Path) -> Result<hyperbee::Hyperbee, String> {
    let idle = CoreHandle::new(Log::default());
    exec::run(&idle, hyperbee::Hyperbee::from_storage_dir(dir)).map_err(|b| format!("opening the storage directory {b}"))?.map_err(|e| format!("opening the storage directory failed: {e:?}"))
}

impl At {
    fn log(&self) -> Result<Log, String> {
        match &self.dir {
            Some(d) => d.log(),
            None => Ok(self.core.log()),
        }
    }
    fn apply(&self, op: &Op) -> Result<Res, String> {
        exec::run(&self.core, apply(&self.hb, op)).map_err(|b| b.to_string())
    }
}

pub fn run_hist(h: &Hist) -> Result<(u64, u64), String> {
    mcrt::set_mode(mcrt::Mode::Seq);
    let at = open_at(&h.log, h.disk)?;
    let mut spec = Spec::of_log(&h.log);
    // specification at every length, and the operation to go on with from there
    let mut by_len: Vec<(u64, Spec, usize)> = vec![(spec.len, spec.clone(), 0)];
    let (mut results, mut log, mut n) = (vec![], h.log.clone(), 0u64);
    for (i, op) in h.ops.iter().enumerate() {
        let res = at.apply(op).map_err(|b| format!("operation {i}: {op:?} {b}"))?;
        n += 1;
        let before = spec.clone();
        let want = spec.apply(op);
        if let Some(want) = &want {
            if !script::res_eq(want, &res) {
                // some other property's business; the history ends here
                return Ok((0, n));
            }
        }
        let now = at.log()?;
        if now.blocks.len() < log.blocks.len() || now.blocks[..log.blocks.len()] != log.blocks[..] {
            return Err(format!("operation {i}: {op:?}: blocks that were already stored changed"));
        }
        if before.len == 0 && now.len() > 1 {
            let mut s = before.clone();
            s.plain_header();
            by_len.push((1, s, i));
        }
        if now.len() > by_len.last().unwrap().0 + 1 {
            return Err(format!("operation {i}: {op:?}: appended {} blocks: a stop in between leaves none of the states before and after", now.len() - log.len()));
        }
        if now.len() != spec.len {
            return Err(format!("operation {i}: {op:?}: the log has {} blocks, expected {}", now.len(), spec.len));
        }
        if now.len() > log.len() {
            by_len.push((now.len(), spec.clone(), i + 1));
        } else {
            by_len.last_mut().unwrap().2 = i + 1;
        }
        log = now;
        results.push(res);
    }
    let look = Script::new(Log::default());
    drop(at);
    for (j, (len, spec, next)) in by_len.iter().enumerate() {
        let prefix = log.prefix(*len);
        let again = open_at(&prefix, h.disk).map_err(|e| format!("after {len} blocks: {e}"))?;
        let mut w = World::over(again.core.clone(), spec.clone());
        w.contents_of(&again.hb, &look).map_err(|e| format!("reopened after {len} of {} blocks: {e}", log.len()))?;
        n += w.ops;
        if again.log()? != prefix {
            return Err(format!("reopening and reading after {len} blocks changed what is stored"));
        }
        if j % h.stride.max(1) != 0 && *len != 1 {
            continue;
        }
        for (i, op) in h.ops.iter().enumerate().skip(*next) {
            let res = again.apply(op).map_err(|b| format!("reopened after {len} blocks, operation {i}: {op:?} {b}"))?;
            n += 1;
            if res != results[i] && !matches!((&res, &results[i]), (Res::NoRoot, Res::NoRoot)) {
                return Err(format!("reopened after {len} blocks, operation {i}: {op:?} returned {res:?}; without reopening {:?}", results[i]));
            }
        }
        if again.log()? != log {
            return Err(format!("reopened after {len} blocks and continued: the log differs from the one of the same history without reopening"));
        }
    }
    Ok((hash((results, &log.blocks)), n))
}

/// Insertion orders
fn orders(n: usize) -> Vec<Vec<usize>> {
    let asc: Vec<usize> = (0..n).collect();
    let mut v = vec![asc.clone(), asc.iter().rev().copied().collect()];
    for mul in [7, 11, 13, 17, 23, 29] {
        if n % mul != 0 {
            v.push(asc.iter().map(|i| i * mul % n).collect());
        }
    }
    // from both ends
    v.push((0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect());
    v
}

pub fn c04(ctx: &Ctx) {
    let t = ctx.thorough;
    let go = |h: Hist| ctx.case("hist", &h, run_hist);
    // all sequences over a small alphabet from nothing
    let alphabet = vec![
        Op::Put(b"a".to_vec(), Some(b"1".to_vec())),
        Op::Put(b"b".to_vec(), None),
        Op::Put(b"a".to_vec(), Some(vec![])),
        Op::Del(b"a".to_vec()),
        Op::Del(b"b".to_vec()),
        Op::PutCas(b"b".to_vec(), Some(b"c".to_vec()), Cas::IfAbsent),
        Op::DelCas(b"a".to_vec(), Cas::Accept),
        Op::PutCas(b"a".to_vec(), None, Cas::Reject),
        Op::Header(Some((None, Some(b"meta".to_vec())))),
        Op::In(Sub { prefix: b"s".to_vec(), sep: None }, Box::new(Op::Put(b"k".to_vec(), Some(b"v".to_vec())))),
        Op::In(Sub { prefix: b"s".to_vec(), sep: None }, Box::new(Op::Del(b"k".to_vec()))),
        Op::Get(b"a".to_vec()),
    ];
    let depth = if t { 5 } else { 4 };
    let mut firsts = vec![];
    for a in &alphabet {
        for b in &alphabet {
            firsts.push(vec![a.clone(), b.clone()]);
        }
    }
    ctx.par(&firsts, |f| {
        fn rec(alphabet: &[Op], ops: &mut Vec<Op>, left: usize, go: &dyn Fn(Hist)) {
            if left == 0 {
                go(Hist { log: Log::default(), ops: ops.clone(), disk: false, stride: 1 });
                // the same in a directory, for the shorter ones (each prefix of a sequence is a sequence)
                if ops.len() <= 3 {
                    go(Hist { log: Log::default(), ops: ops.clone(), disk: true, stride: 1 });
                }
                return;
            }
            for op in alphabet {
                ops.push(op.clone());
                rec(alphabet, ops, left - 1, go);
                ops.pop();
            }
        }
        rec(&alphabet, &mut f.clone(), depth - 2, &go);
        rec(&alphabet, &mut f.clone(), 1, &go);
    });
    ctx.count("states", 1);
    ctx.note(format!("all sequences of {depth} operations over {} from an empty store", alphabet.len()));
    // from every shape: two mutations
    let states = shapes::reachable(ctx, if t { 22 } else { 17 });
    ctx.count("states", states.len() as u64);
    ctx.par(&states, |s| {
        for a in shapes::mutations(&s.spec) {
            let mut mid = s.spec.clone();
            mid.apply(&a);
            let second = shapes::mutations(&mid);
            let step = if t || s.spec.map.len() <= 9 { 1 } else { 5 };
            for b in second.into_iter().step_by(step) {
                go(Hist { log: s.log.clone(), ops: vec![a.clone(), b], disk: false, stride: 1 });
            }
        }
    });
    // larger trees: one mutation each, in memory and on disk
    let big: Vec<State> = two_and_three_levels();
    let work: Vec<(&State, Op, bool)> = states
        .iter()
        .filter(|s| s.spec.map.len() >= 8)
        .chain(&big)
        .flat_map(|s| {
            let m = shapes::mutations(&s.spec);
            let step = if t { 1 } else { m.len() / 40 + 1 };
            m.into_iter().step_by(step).enumerate().flat_map(move |(i, m)| [(s, m.clone(), false), (s, m, i % 3 != 0)])
        })
        .collect();
    ctx.count("states", big.len() as u64);
    ctx.par(&work, |(s, m, disk)| go(Hist { log: s.log.clone(), ops: vec![m.clone(), Op::Put(b"zzzz".to_vec(), None)], disk: *disk, stride: 1 }));
    ctx.note(format!("one or two mutations from {} larger trees", big.len()));
    // long histories, stopped after every block
    let n = if t { 150 } else { 70 };
    let mut work = vec![];
    for put in orders(n) {
        for del in orders(n) {
            for disk in [false, true] {
                work.push((put.clone(), del.clone(), disk));
            }
        }
    }
    if !t {
        work = work.into_iter().step_by(3).collect();
    }
    ctx.par(&work, |(put, del, disk)| {
        let key = |i: &usize| shapes::nth_key(*i);
        let mut ops: Vec<Op> = put.iter().enumerate().map(|(at, i)| Op::Put(key(i), shapes::value(at as u64))).collect();
        ops.extend(del.iter().map(|i| Op::Del(key(i))));
        ops.push(Op::Put(b"again".to_vec(), None));
        go(Hist { log: Log::default(), ops, disk: *disk, stride: 13 });
    });
    ctx.note(format!("{} histories of {} mutations, stopped after every block", work.len(), 2 * n + 1));
}

// ---------------------------------------------------------------------------------------------------------------- C16

/// An operation on a core on which blocks are missing and arrive one after the other while it waits
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Arrive {
    #[serde(with = "logser")]
    pub log: Log,
    /// operations performed while everything was there
    pub warm: Vec<Op>,
    /// in the order of their arrival
    pub missing: Vec<u64>,
    pub op: Op,
}

pub fn run_arrive(a: &Arrive) -> Result<(u64, u64), String> {
    mcrt::set_mode(mcrt::Mode::Seq);
    let core = CoreHandle::new(a.log.clone());
    let hb = script::open(&core);
    for op in &a.warm {
        exec::run(&core, apply(&hb, op)).map_err(|b| format!("with all blocks present, {op:?} {b}"))?;
    }
    let mut spec = Spec::of_log(&a.log);
    let want = spec.apply(&a.op).ok_or("internal: not specified")?;
    core.plan_reset();
    core.with(|c| {
        c.missing = a.missing.iter().copied().collect();
        c.on_missing = Missing::Wait;
    });
    let flag = Flag::new();
    let mut f = Box::pin(async { apply(&hb, &a.op).await });
    let mut done = None;
    let mut after = 0;
    let mut order = a.missing.iter();
    mcrt::budget(exec::STEP_LIMIT);
    let mut spins = 0;
    'all: loop {
        // a task that keeps waking itself while it waits for the core must not starve the core
        while spins < 40 && flag.take() {
            spins += 1;
            if let std::task::Poll::Ready(r) = exec::poll_once(f.as_mut(), &flag).map_err(|b| format!("{:?} {b}", a.op))? {
                done = Some(r);
                break 'all;
            }
        }
        spins = 0;
        match order.next() {
            None if after > a.missing.len() + 4000 || !flag.get() => break,
            None => after += 1,
            Some(b) => {
                after += 1;
                core.deliver(*b)
            }
        }
    }
    let _ = exec::catch(move || drop(f));
    match &done {
        None => return Err(format!("{:?} does not complete although all blocks have arrived", a.op)),
        Some(r) if !script::res_eq(&want, r) => return Err(format!("{:?} returned {r:?} after {after} of {} missing blocks had arrived, expected {want:?}", a.op, a.missing.len())),
        _ => (),
    }
    for b in order {
        core.deliver(*b);
    }
    let mut w = World::over(core.clone(), spec);
    w.contents_of(&hb, &Script::new(Log::default())).map_err(|e| format!("once all blocks have arrived: {e}"))?;
    let ops = w.ops + 1;
    Ok((hash((done, after)), ops))
}

/// Everything that can be asked or done, with a specified result
fn asks(spec: &Spec) -> Vec<Op> {
    all_ops(spec)
}

fn permutations(v: &[u64]) -> Vec<Vec<u64>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, x);
            out.push(p);
        }
    }
    out
}

pub fn c16(ctx: &Ctx) {
    let t = ctx.thorough;
    let partial = |s: &State, warm: &[Op], missing: Vec<u64>, op: &Op| {
        let mut sc = Script::new(s.log.clone());
        sc.stride = if s.spec.map.len() <= 10 { 0 } else { 7 };
        sc.steps.extend(warm.iter().map(|o| exact(o.clone())));
        sc.steps.extend([
            Step::Missing { blocks: missing, wait: false },
            Step::Do { h: 0, op: op.clone(), want: Want::OrErrIfHit, plan: Plan::default() },
            Step::Missing { blocks: vec![], wait: false },
            Step::Check { h: 0 },
            Step::CheckFresh,
        ]);
        run(ctx, &sc);
    };
    // small logs: all subsets of blocks
    let small = shapes::reachable(ctx, if t { 12 } else { 9 });
    ctx.count("states", small.len() as u64);
    let work: Vec<(&State, Op)> = small.iter().flat_map(|s| asks(&s.spec).into_iter().map(move |o| (s, o))).collect();
    ctx.par(&work, |(s, op)| {
        let n = s.log.len().min(if t { 14 } else { 10 });
        // the newest n blocks; the older ones are present, or all missing
        let base = s.log.len() - n;
        for set in 0u64..1 << n {
            let blocks: Vec<u64> = (0..n).filter(|i| set >> i & 1 == 1).map(|i| base + i).collect();
            if !t && n > 8 && set.count_ones() > 3 && set.count_ones() < n as u32 - 2 {
                continue;
            }
            ctx.count("subsets_of_missing_blocks", 1);
            partial(s, &[], blocks, op);
        }
    });
    ctx.note("all subsets of missing blocks of small logs");
    // something was read before
    let work: Vec<(&State, Op)> = small.iter().filter(|s| s.spec.map.len() <= 9).flat_map(|s| asks(&s.spec).into_iter().map(move |o| (s, o))).collect();
    ctx.par(&work, |(s, op)| {
        let mut warms: Vec<Op> = s.spec.map.keys().map(|k| Op::Get(k.clone())).collect();
        warms.push(Op::Get(b"nothing".to_vec()));
        let n = s.log.len();
        for w in warms.iter().step_by(if t { 1 } else { 2 }) {
            for set in sets(n, 1) {
                partial(s, std::slice::from_ref(w), set, op);
            }
        }
    });
    ctx.note("blocks missing after part of the tree was read");
    // larger logs: single blocks, pairs, everything before or after
    let mut large = two_and_three_levels();
    large.extend(shapes::reachable(ctx, if t { 22 } else { 15 }).into_iter().filter(|s| s.spec.map.len() > if t { 12 } else { 9 }));
    ctx.count("states", large.len() as u64);
    let work: Vec<(&State, Op)> = large
        .iter()
        .flat_map(|s| some_ops(&s.spec, if t { 80 } else { 14 }).into_iter().map(move |o| (s, o)))
        .collect();
    ctx.par(&work, |(s, op)| {
        let n = s.log.len();
        let all = sets(n, if n <= 18 { 2 } else { 1 });
        let step = if t { 1 } else { all.len() / 40 + 1 };
        for set in all.into_iter().step_by(step) {
            partial(s, &[], set, op);
        }
    });
    ctx.note(format!("larger logs: {} stores", large.len()));
    // block numbers that do not fit narrower integers
    let far = shapes::far();
    ctx.count("states", far.len() as u64);
    ctx.par(&far, |s| {
        let blocks: Vec<u64> = (s.log.base..s.log.len()).collect();
        for op in asks(&s.spec) {
            for (i, a) in blocks.iter().enumerate() {
                partial(s, &[], vec![*a], &op);
                partial(s, &[], blocks[i..].to_vec(), &op);
                partial(s, &[], blocks[..=i].to_vec(), &op);
            }
            for missing in [blocks.clone(), blocks.iter().rev().copied().collect()] {
                ctx.case("arrive", &Arrive { log: s.log.clone(), warm: vec![], missing, op: op.clone() }, run_arrive);
            }
        }
    });
    // two operations with different blocks missing
    let tiny: Vec<&State> = small.iter().filter(|s| s.log.len() <= 6).collect();
    ctx.par(&tiny, |s| {
        let n = s.log.len();
        for a in asks(&s.spec) {
            for sa in 0u64..1 << n {
                for sb in [0, sa & (sa.wrapping_sub(1)), sa >> 1] {
                    for b in asks(&s.spec).into_iter().step_by(3) {
                        let blocks = |x: u64| (0..n).filter(|i| x >> i & 1 == 1).collect::<Vec<u64>>();
                        let mut sc = Script::new(s.log.clone());
                        sc.steps = vec![
                            Step::Missing { blocks: blocks(sa), wait: false },
                            Step::Do { h: 0, op: a.clone(), want: Want::OrErrIfHit, plan: Plan::default() },
                            Step::Missing { blocks: blocks(sb), wait: false },
                            Step::Do { h: 0, op: b, want: Want::OrErrIfHit, plan: Plan::default() },
                            Step::Missing { blocks: vec![], wait: false },
                            Step::Check { h: 0 },
                            Step::CheckFresh,
                        ];
                        run(ctx, &sc);
                    }
                }
            }
        }
    });
    // waiting for blocks: every order of arrival
    let wait: Vec<(&State, Op)> = small.iter().flat_map(|s| asks(&s.spec).into_iter().map(move |o| (s, o))).collect();
    ctx.par(&wait, |(s, op)| {
        let n = s.log.len();
        let go = |warm: Vec<Op>, missing: Vec<u64>| ctx.case("arrive", &Arrive { log: s.log.clone(), warm, missing, op: op.clone() }, run_arrive);
        if n <= 6 {
            for set in 0u64..1 << n {
                let blocks: Vec<u64> = (0..n).filter(|i| set >> i & 1 == 1).collect();
                for p in permutations(&blocks) {
                    ctx.count("orders_of_arrival", 1);
                    go(vec![], p);
                }
            }
        }
        let all: Vec<u64> = (0..n).collect();
        let mut mixed = all.clone();
        mixed.rotate_left(n as usize / 2);
        for order in [all.clone(), all.iter().rev().copied().collect(), mixed] {
            go(vec![], order.clone());
            for w in s.spec.map.keys().take(if t { 20 } else { 3 }) {
                go(vec![Op::Get(w.clone())], order.clone());
            }
        }
    });
    let wait: Vec<(&State, Op)> = large.iter().flat_map(|s| some_ops(&s.spec, if t { 100 } else { 30 }).into_iter().map(move |o| (s, o))).collect();
    ctx.par(&wait, |(s, op)| {
        let n = s.log.len();
        let all: Vec<u64> = (0..n).collect();
        for order in [all.clone(), all.iter().rev().copied().collect(), all.iter().map(|i| (i * 7 + 3) % n).collect::<Vec<_>>()] {
            let mut order = order;
            let mut seen = std::collections::HashSet::new();
            order.retain(|x| seen.insert(*x));
            order.extend(all.iter().filter(|x| !seen.contains(x)));
            ctx.case("arrive", &Arrive { log: s.log.clone(), warm: vec![], missing: order, op: op.clone() }, run_arrive);
        }
    });
    ctx.note("operations that wait for blocks to arrive");
    // the core grows; the newest blocks are not there yet
    let grow: Vec<(&State, Op)> = small.iter().filter(|s| s.spec.len > 0).flat_map(|s| shapes::mutations(&s.spec).into_iter().map(move |o| (s, o))).collect();
    ctx.par(&grow, |(s, m)| {
        let mut after = s.spec.clone();
        after.apply(m);
        let second = shapes::mutations(&after);
        let n = s.log.len();
        for m2 in [None, second.first(), second.last()] {
            let mut probes: Vec<Op> = vec![Op::Version, Op::Traverse(Range::all()), Op::Traverse(Range::all().rev())];
            if let Op::Put(k, _) | Op::Del(k) = m {
                probes.push(Op::Get(k.clone()));
            }
            probes.extend(s.spec.map.keys().take(3).map(|k| Op::Get(k.clone())));
            for warm in [false, true] {
                for missing in [vec![n], vec![n, n + 1], vec![n + 1], vec![n - 1, n]] {
                    let mut sc = Script::new(s.log.clone());
                    sc.warm = warm;
                    sc.steps.push(Step::Missing { blocks: missing.clone(), wait: false });
                    sc.steps.push(Step::Foreign { op: m.clone() });
                    sc.steps.extend(m2.map(|op| Step::Foreign { op: op.clone() }));
                    for p in &probes {
                        sc.steps.push(Step::Do { h: 0, op: p.clone(), want: Want::OrErrIfHit, plan: Plan::default() });
                    }
                    for b in &missing {
                        sc.steps.push(Step::Deliver { seq: *b });
                        for p in &probes {
                            sc.steps.push(Step::Do { h: 0, op: p.clone(), want: Want::OrErrIfHit, plan: Plan::default() });
                        }
                    }
                    sc.steps.extend([Step::Check { h: 0 }, Step::CheckFresh]);
                    run(ctx, &sc);
                }
            }
        }
    });
    ctx.note("cores that grow while blocks are missing");
}

/// Sets of blocks of a log of length n: with up to `k` elements, all but up to `k`, prefixes and suffixes
fn sets(n: u64, k: usize) -> Vec<Vec<u64>> {
    let all: Vec<u64> = (0..n).collect();
    let mut few: Vec<Vec<u64>> = all.iter().map(|x| vec![*x]).collect();
    if k >= 2 {
        for a in 0..n {
            few.extend((a + 1..n).map(|b| vec![a, b]));
        }
    }
    let but = |v: &Vec<u64>| all.iter().copied().filter(|x| !v.contains(x)).collect::<Vec<_>>();
    let mut out: Vec<Vec<u64>> = few.iter().map(but).collect();
    out.extend(few);
    for i in 1..n as usize {
        out.push(all[i..].to_vec());
        out.push(all[..i].to_vec());
    }
    out.push(all);
    out.retain(|v| !v.is_empty());
    out
}

// ---------------------------------------------------------------------------------------------------------------- C17

pub fn c17(ctx: &Ctx) {
    let t = ctx.thorough;
    let states = shapes::reachable(ctx, if t { 20 } else { 13 });
    ctx.count("states", states.len() as u64);
    let on = |h: usize, op: Op| Step::Do { h, op, want: Want::Exact, plan: Plan::default() };
    // the other handle has read everything, then something is written, then it reads
    ctx.par(&states, |s| {
        for m in shapes::mutations(&s.spec) {
            for warm_other in [false, true] {
                let mut after = s.spec.clone();
                after.apply(&m);
                let mut sc = Script::new(s.log.clone());
                sc.bytes = true;
                sc.steps.push(Step::Reopen);
                if warm_other {
                    sc.steps.push(on(1, Op::Traverse(Range::all())));
                }
                sc.steps.extend([on(0, m.clone()), Step::Check { h: 1 }, Step::Check { h: 0 }]);
                run(ctx, &sc);
                // and it writes, too
                let second = shapes::mutations(&after);
                let step = if t || s.spec.map.len() <= 5 { 1 } else { 4 };
                for m2 in second.into_iter().step_by(step) {
                    let mut sc = sc.clone();
                    sc.steps.truncate(sc.steps.len() - 2);
                    sc.steps.extend([on(1, m2), Step::Check { h: 0 }, Step::Check { h: 1 }]);
                    run(ctx, &sc);
                }
            }
            // extended by someone else
            if s.spec.len > 0 {
                for warm in [false, true] {
                    let mut sc = Script::new(s.log.clone());
                    sc.warm = warm;
                    sc.steps = vec![Step::Foreign { op: m.clone() }, Step::Check { h: 0 }];
                    run(ctx, &sc);
                }
            }
        }
    });
    ctx.note("a write, then reads through another handle");
    // all sequences over two handles (and a sub) from small stores
    let depth = if t { 5 } else { 4 };
    let starts = [shapes::state(shapes::empty()), shapes::build(&shapes::Shape::Leaf(1)), shapes::build(&shapes::Shape::Leaf(8))];
    let mut firsts = vec![];
    for s in &starts {
        for h in 0..2 {
            for op in alphabet(&s.spec) {
                firsts.push((s, on(h, op)));
            }
        }
    }
    ctx.count("states", starts.len() as u64);
    ctx.par(&firsts, |(s, first)| {
        fn rec(ctx: &Ctx, s: &State, al: &[Op], steps: &mut Vec<Step>, left: usize) {
            if ctx.stopped() {
                return;
            }
            if left == 0 {
                let mut sc = Script::new(s.log.clone());
                sc.steps = vec![Step::Reopen];
                sc.steps.extend(steps.iter().cloned());
                sc.steps.extend([Step::Check { h: 1 }, Step::Check { h: 0 }]);
                run(ctx, &sc);
                return;
            }
            for h in 0..2 {
                for op in al {
                    steps.push(Step::Do { h, op: op.clone(), want: Want::Exact, plan: Plan::default() });
                    rec(ctx, s, al, steps, left - 1);
                    steps.pop();
                }
            }
        }
        let al = alphabet(&s.spec);
        rec(ctx, s, &al, &mut vec![first.clone()], depth - 1);
    });
    ctx.note(format!("all sequences of {depth} operations through two handles"));
    // larger trees
    let big = two_and_three_levels();
    ctx.count("states", big.len() as u64);
    let work: Vec<(&State, Op)> = big.iter().flat_map(|s| some_ops(&s.spec, if t { 200 } else { 30 }).into_iter().filter(|o| o.mutates()).map(move |o| (s, o))).collect();
    ctx.par(&work, |(s, m)| {
        let mut sc = Script::new(s.log.clone());
        sc.stride = 3;
        sc.warm = true;
        sc.steps = vec![
            Step::Reopen,
            on(1, Op::Traverse(Range::all())),
            on(0, m.clone()),
            Step::Check { h: 1 },
            on(1, Op::Put(b"zz".to_vec(), None)),
            Step::Check { h: 0 },
            on(0, Op::Del(b"zz".to_vec())),
            Step::Check { h: 1 },
        ];
        run(ctx, &sc);
    });
    // a failed or cancelled operation on one handle, then the other one writes
    let few: Vec<&State> = states.iter().filter(|s| s.spec.map.len() <= if t { 10 } else { 8 }).collect();
    ctx.par(&few, |s| {
        let muts = shapes::mutations(&s.spec);
        for m in muts.iter().step_by(if t { 1 } else { 3 }) {
            for other in [Op::Put(b"zz".to_vec(), None), muts[muts.len() / 2].clone()] {
                let (n, polls) = measure(&s.log, true, m);
                let mut firsts: Vec<Step> =
                    (0..n).map(|f| Step::Do { h: 0, op: m.clone(), want: Want::ErrIfHit, plan: Plan { fail: vec![f], ..Plan::default() } }).collect();
                firsts.extend((1..=polls).map(|p| Step::Cancel { h: 0, op: m.clone(), polls: p }));
                for f in firsts {
                    let mut sc = Script::new(s.log.clone());
                    sc.warm = true;
                    sc.steps = vec![Step::Reopen, f, on(1, other.clone()), Step::Check { h: 0 }, Step::Check { h: 1 }];
                    run(ctx, &sc);
                }
            }
        }
    });
    ctx.note("failed and cancelled operations between two handles");
    // concurrently: one handle writes, others read
    let budget = if t { 20_000 } else { 150 };
    let mut progs = vec![];
    for (i, (_, s)) in c_sched::stores().into_iter().chain(c_sched::big_stores()).enumerate() {
        let (w, r) = (c_sched::writes(&s.spec), c_sched::reads(&s.spec));
        for a in &w {
            let key = match on_parent(a) {
                Op::Put(k, _) | Op::PutCas(k, ..) | Op::Del(k) | Op::DelCas(k, _) => Some(Op::Get(k)),
                _ => None,
            };
            for b in r.iter().chain(&key) {
                for warm in [false, true] {
                    for lock in [true, false] {
                        if lock && i >= 6 && !t {
                            continue;
                        }
                        let mut sc = Sched::new(s.log.clone(), vec![vec![a.clone()], vec![b.clone()]]);
                        sc.handles = 2;
                        sc.tasks[1].h = 1;
                        sc.warm = warm;
                        sc.lock = lock;
                        progs.push((sc.clone(), if lock { 2 } else { 6 }));
                        // the reader reads again; the writer writes again
                        sc.tasks[1].ops.push(key.clone().unwrap_or(Op::Version));
                        progs.push((sc.clone(), if lock { 2 } else { 5 }));
                        let undo = match key.clone() {
                            Some(Op::Get(k)) => Op::Del(k),
                            _ => Op::Put(b"zz".to_vec(), None),
                        };
                        sc.tasks[0].ops.push(undo);
                        progs.push((sc.clone(), if lock { 1 } else { 4 }));
                        if !lock {
                            // a third handle
                            sc.handles = 3;
                            sc.tasks.push(sched::Task { h: 2, ops: vec![b.clone()] });
                            sc.tasks[0].ops.truncate(1);
                            progs.push((sc, 3));
                        }
                    }
                }
            }
        }
    }
    explore(ctx, "a writing and reading handles", budget, progs);
}

fn alphabet(spec: &Spec) -> Vec<Op> {
    let some = spec.map.keys().next().cloned().unwrap_or(b"a".to_vec());
    let sub = Sub { prefix: b"s".to_vec(), sep: None };
    vec![
        Op::Put(b"a".to_vec(), Some(b"x".to_vec())),
        Op::Put(b"z".to_vec(), None),
        Op::Del(some.clone()),
        Op::PutCas(some, Some(b"y".to_vec()), Cas::IfPresent),
        Op::In(sub, Box::new(Op::Put(b"k".to_vec(), None))),
        Op::Traverse(Range::all()),
    ]
}

fn explore(ctx: &Ctx, what: &str, budget: u64, progs: Vec<(Sched, usize)>) {
    let s0 = ctx.get("schedules");
    ctx.par(&progs, |(sc, bound)| {
        sched::explore(ctx, sc, *bound, budget);
    });
    ctx.note(format!("{what}: {} programs, {} schedules", progs.len(), ctx.get("schedules") - s0));
}

// ---------------------------------------------------------------------------------------------------------------- C20

fn metadatas() -> Vec<Option<Pair>> {
    let vals: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(b"feed".to_vec()), Some(vec![0xff, 0, 0x80, 0xc3]), Some(vec![b'm'; 300])];
    let mut v = vec![None];
    for c in &vals {
        for u in &vals {
            v.push(Some((c.clone(), u.clone())));
        }
    }
    v.push(Some((Some(vec![0xaa; 70_000]), None)));
    v
}

pub fn c20(ctx: &Ctx) {
    let t = ctx.thorough;
    let sub = Sub { prefix: b"s".to_vec(), sep: None };
    let ops: Vec<Op> = vec![
        Op::Header(None),
        Op::Header(Some((Some(b"feed".to_vec()), None))),
        Op::Header(Some((None, Some(b"data".to_vec())))),
        Op::Header(Some((None, None))),
        Op::Put(b"a".to_vec(), Some(b"v".to_vec())),
        Op::Put(b"b".to_vec(), None),
        Op::PutCas(b"a".to_vec(), None, Cas::Reject),
        Op::PutCas(b"a".to_vec(), None, Cas::Accept),
        Op::Del(b"a".to_vec()),
        Op::DelCas(b"a".to_vec(), Cas::Accept),
        Op::Get(b"a".to_vec()),
        Op::Version,
        Op::Traverse(Range::all()),
        Op::In(sub.clone(), Box::new(Op::Put(b"k".to_vec(), None))),
        Op::In(sub.clone(), Box::new(Op::PutCas(b"k".to_vec(), None, Cas::Reject))),
        Op::In(sub.clone(), Box::new(Op::Del(b"k".to_vec()))),
        Op::AddStream(1, true),
    ];
    let base = |log: Log| {
        let mut sc = Script::new(log);
        sc.len = true;
        sc
    };
    // all sequences from nothing; the header is looked at after every operation
    let depth = if t { 5 } else { 4 };
    let mut firsts = vec![];
    for a in &ops {
        for b in &ops {
            firsts.push(vec![a.clone(), b.clone()]);
        }
    }
    ctx.par(&firsts, |f| {
        fn rec(ctx: &Ctx, ops: &[Op], at: &mut Vec<Op>, left: usize, base: &dyn Fn(Log) -> Script) {
            if ctx.stopped() {
                return;
            }
            if left == 0 {
                let mut sc = base(Log::default());
                for o in at.iter() {
                    sc.steps.extend([exact(o.clone()), Step::CheckHeader]);
                }
                sc.steps.push(Step::CheckFresh);
                run(ctx, &sc);
                return;
            }
            for o in ops {
                at.push(o.clone());
                rec(ctx, ops, at, left - 1, base);
                at.pop();
            }
        }
        rec(ctx, &ops, &mut f.clone(), depth - 2, &base);
    });
    ctx.count("states", 1);
    ctx.note(format!("all sequences of {depth} operations over {} from nothing", ops.len()));
    let plain: Vec<Op> = ops.iter().filter(|o| !matches!(o, Op::AddStream(..))).cloned().collect();
    opened(ctx, &plain, if t { 4 } else { 3 });
    // all metadata: the header's bytes, and the store afterwards
    ctx.par(&metadatas(), |m| {
        for m2 in metadatas() {
            let mut sc = base(Log::default());
            sc.bytes = true;
            sc.steps = vec![exact(Op::Header(m.clone())), Step::CheckHeader, exact(Op::Header(m2.clone())), Step::CheckHeader, Step::Check { h: 0 }, Step::CheckFresh];
            sc.steps.extend([
                exact(Op::Put(b"k".to_vec(), None)),
                exact(Op::Header(m2)),
                Step::CheckHeader,
                Step::Reopen,
                Step::Check { h: 1 },
                exact(Op::Del(b"k".to_vec())),
                Step::CheckHeader,
                Step::Check { h: 1 },
            ]);
            run(ctx, &sc);
        }
    });
    // stores with metadata behave like those without
    let states = shapes::reachable(ctx, if t { 18 } else { 15 });
    ctx.count("states", states.len() as u64);
    ctx.par(&states, |s| {
        if s.log.is_empty() {
            return;
        }
        for m in [Some((Some(b"feed".to_vec()), Some(vec![0xff]))), Some((None, None))] {
            let mut log = s.log.clone();
            log.blocks[0] = raw::encode_header(&raw::Header { protocol: b"hyperbee".to_vec(), metadata: m.clone() }).into();
            for op in all_ops(&s.spec) {
                let mut sc = base(log.clone());
                sc.bytes = true;
                sc.steps = vec![exact(op.clone()), Step::CheckHeader, exact(Op::Header(m.clone())), Step::CheckHeader, Step::Check { h: 0 }, Step::CheckFresh];
                run(ctx, &sc);
            }
        }
    });
    ctx.note("all metadata, and stores with metadata");
    // failing, delayed, cancelled first writes
    let firsts: Vec<Op> = ops.iter().filter(|o| matches!(on_parent(o), Op::Header(_) | Op::Put(..) | Op::PutCas(..))).cloned().collect();
    ctx.par(&firsts, |a| {
        let (n, polls) = measure(&Log::default(), false, a);
        let mut starts: Vec<Step> = vec![];
        for f in 0..n + 1 {
            starts.push(Step::Do { h: 0, op: a.clone(), want: Want::ErrIfHit, plan: Plan { fail: vec![f], ..Plan::default() } });
            starts.push(Step::Do { h: 0, op: a.clone(), want: Want::Exact, plan: Plan { pend: vec![f], ..Plan::default() } });
        }
        starts.extend((1..=polls).map(|p| Step::Cancel { h: 0, op: a.clone(), polls: p }));
        for s in starts {
            for b in &ops {
                for c in &firsts {
                    let mut sc = base(Log::default());
                    sc.steps = vec![s.clone(), Step::CheckHeader, exact(b.clone()), Step::CheckHeader, exact(c.clone()), Step::CheckHeader, Step::Check { h: 0 }, Step::CheckFresh];
                    run(ctx, &sc);
                }
            }
        }
    });
    ctx.note("failed, delayed and cancelled first writes");
    // concurrent first writes
    let mut progs = vec![];
    let conc: Vec<Op> = ops.iter().filter(|o| !matches!(o, Op::AddStream(..))).cloned().collect();
    for log in [shapes::empty(), shapes::header_only()] {
        for (i, a) in conc.iter().enumerate() {
            for b in &conc[i..] {
                if !a.mutates() && !b.mutates() {
                    continue;
                }
                for lock in [true, false] {
                    for pend in [false, true] {
                        let mut sc = Sched::new(log.clone(), vec![vec![a.clone()], vec![b.clone()]]);
                        sc.lock = lock;
                        sc.pend = pend;
                        progs.push((sc, if lock { 3 } else { 9 }));
                    }
                }
                for c in &firsts {
                    let mut sc = Sched::new(log.clone(), vec![vec![a.clone()], vec![b.clone()], vec![c.clone()]]);
                    sc.lock = false;
                    progs.push((sc, 4));
                    let mut sc = Sched::new(log.clone(), vec![vec![a.clone(), c.clone()], vec![b.clone()]]);
                    sc.lock = false;
                    progs.push((sc, 4));
                }
            }
        }
    }
    explore(ctx, "concurrent first writes", if t { 100_000 } else { 4_000 }, progs);
}

// ---------------------------------------------------------------------------------------------------------------- C25

/// Two stores connected by a pair of streams; the receiver has the first `have` blocks and gets the others in `order`
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Repl {
    #[serde(with = "logser")]
    pub log: Log,
    pub have: u64,
    pub order: Vec<u64>,
    /// the receiver adds its stream first
    pub first: bool,
    /// written on the sending store after each delivery
    pub writes: Vec<Op>,
    /// the receiver reads everything it has before it is connected
    pub warm: bool,
}

pub fn run_repl(r: &Repl) -> Result<(u64, u64), String> {
    mcrt::set_mode(mcrt::Mode::Seq);
    let (from, to) = (CoreHandle::new(r.log.clone()), CoreHandle::new(r.log.prefix(r.have)));
    let (a, b) = (script::open(&from), script::open(&to));
    if r.warm && r.have > 1 {
        exec::run(&to, apply(&b, &Op::Traverse(Range::all()))).map_err(|e| e.to_string())?;
    }
    let (x, y) = replicator::utils::create_connected_streams();
    to.with(|c| c.missing = r.order.iter().copied().collect());
    let mut ends = (Some(x), Some(y));
    for side in [r.first, !r.first] {
        // the receiver is not the initiator
        let res = if side {
            exec::run(&to, b.add_stream(ends.1.take().unwrap(), false))
        } else {
            exec::run(&from, a.add_stream(ends.0.take().unwrap(), true))
        };
        res.map_err(|b| format!("adding a stream {b}"))?.map_err(|e| format!("adding a stream failed: {e:?}"))?;
    }
    for (core, want, who) in [(&from, true, "sending"), (&to, false, "receiving")] {
        let got: Vec<bool> = core.with(|c| c.streams.iter().map(|s| s.1).collect());
        if got != [want] {
            return Err(format!("the core of the {who} store has the streams (by initiator role) {got:?}, expected [{want}]"));
        }
    }
    let mut spec = Spec::of_log(&r.log);
    let mut n = 2;
    let mut seen = vec![];
    let mut writes = r.writes.iter();
    let mut arrived = r.order.iter();
    loop {
        // whatever has arrived: the right answer, or an error if something is missing
        let mut asks: Vec<Op> = spec.map.keys().map(|k| Op::Get(k.clone())).collect();
        asks.extend([Op::Version, Op::Traverse(Range::all()), Op::Get(b"none".to_vec())]);
        for op in asks {
            to.plan_reset();
            let got = exec::run(&to, apply(&b, &op)).map_err(|b| format!("on the receiving store, {op:?} {b}"))?;
            let refused = to.with(|c| c.failed + c.has_not) > 0;
            let want = spec.clone().apply(&op).unwrap();
            n += 1;
            let is_err = got.is_err() && !matches!((&want, &got), (Res::NoRoot, Res::NoRoot));
            if is_err && !refused {
                return Err(format!("on the receiving store, {op:?} failed although no block it read is missing: {got:?}"));
            }
            if !is_err && !script::res_eq(&want, &got) {
                return Err(format!("on the receiving store, {op:?} returned {got:?}, expected {want:?}"));
            }
            seen.push(is_err);
        }
        match (arrived.next(), writes.next()) {
            (None, None) => break,
            (d, w) => {
                if let Some(d) = d {
                    to.deliver(*d);
                }
                if let Some(w) = w {
                    let want = spec.apply(w);
                    let got = exec::run(&from, apply(&a, w)).map_err(|b| format!("on the sending store, {w:?} {b}"))?;
                    if want.is_some_and(|w| w != got) {
                        return Ok((0, n));
                    }
                }
            }
        }
    }
    let look = Script::new(Log::default());
    for (core, hb, who) in [(&to, &b, "receiving"), (&from, &a, "sending")] {
        let mut w = World::over(core.clone(), spec.clone());
        w.contents_of(hb, &look).map_err(|e| format!("in the end, on the {who} store: {e}"))?;
        n += w.ops;
    }
    // the cores refer to each other
    for c in [&from, &to] {
        c.with(|c| {
            c.followers.clear();
            c.streams.clear();
        })
    }
    Ok((hash((seen, spec.len)), n))
}

pub fn c25(ctx: &Ctx) {
    let t = ctx.thorough;
    // all sequences of adding streams and other operations
    let starts = [shapes::state(shapes::empty()), shapes::state(shapes::header_only()), shapes::build(&shapes::Shape::Leaf(1)), shapes::build(&shapes::Shape::Leaf(8))];
    let al = |spec: &Spec| {
        let mut v = vec![Op::AddStream(0, true), Op::AddStream(1, false)];
        let k = spec.map.keys().next().cloned().unwrap_or(b"a".to_vec());
        v.extend([
            Op::Put(b"a".to_vec(), None),
            Op::Del(k.clone()),
            Op::Get(k.clone()),
            Op::PutCas(k, None, Cas::Reject),
            Op::Traverse(Range::all()),
            Op::Version,
            Op::Header(None),
        ]);
        v
    };
    let depth = if t { 5 } else { 4 };
    let mut firsts = vec![];
    for s in &starts {
        for a in al(&s.spec) {
            for b in al(&s.spec) {
                firsts.push((s, vec![a.clone(), b]));
            }
        }
    }
    ctx.count("states", starts.len() as u64);
    ctx.par(&firsts, |(s, f)| {
        fn rec(ctx: &Ctx, s: &State, al: &[Op], at: &mut Vec<Op>, left: usize) {
            if left == 0 {
                // number the streams
                let mut id = 0;
                let ops: Vec<Op> = at
                    .iter()
                    .map(|o| match o {
                        Op::AddStream(_, role) => {
                            id += 1;
                            Op::AddStream(id, *role)
                        }
                        o => o.clone(),
                    })
                    .collect();
                if id == 0 {
                    return;
                }
                let mut sc = Script::new(s.log.clone());
                sc.len = true;
                sc.steps = ops.into_iter().map(exact).collect();
                sc.steps.extend([Step::Check { h: 0 }, Step::CheckFresh]);
                run(ctx, &sc);
                return;
            }
            for o in al {
                at.push(o.clone());
                rec(ctx, s, al, at, left - 1);
                at.pop();
            }
        }
        rec(ctx, s, &al(&s.spec), &mut f.clone(), depth - 2);
    });
    ctx.note(format!("all sequences of {depth} operations"));
    // around every operation of every shape, at every point of a traversal, after failures, and cancelled
    let states = shapes::reachable(ctx, if t { 14 } else { 10 });
    ctx.count("states", states.len() as u64);
    let (on, off) = (Op::AddStream(1, true), Op::AddStream(2, false));
    ctx.par(&states, |s| {
        for op in all_ops(&s.spec) {
            for warm in [false, true] {
                let mut sc = Script::new(s.log.clone());
                sc.warm = warm;
                sc.len = true;
                sc.steps = vec![exact(on.clone()), exact(op.clone()), exact(off.clone()), Step::Check { h: 0 }, Step::CheckFresh];
                run(ctx, &sc);
                let (n, polls) = measure(&s.log, warm, &op);
                for f in 0..n {
                    let mut sc = Script::new(s.log.clone());
                    sc.warm = warm;
                    sc.steps = vec![
                        exact(on.clone()),
                        Step::Do { h: 0, op: op.clone(), want: Want::ErrIfHit, plan: Plan { fail: vec![f], ..Plan::default() } },
                        exact(off.clone()),
                        Step::CheckFresh,
                    ];
                    run(ctx, &sc);
                }
                for p in (1..=polls).step_by(polls / 20 + 1) {
                    let mut sc = Script::new(s.log.clone());
                    sc.warm = warm;
                    sc.steps = vec![Step::Cancel { h: 0, op: op.clone(), polls: p }, exact(on.clone()), exact(off.clone()), Step::Check { h: 0 }];
                    run(ctx, &sc);
                }
            }
        }
        for range in [Range::all(), Range::all().rev()] {
            for taken in 0..=s.spec.map.len() {
                let mut sc = Script::new(s.log.clone());
                sc.steps = vec![
                    Step::Open { h: 0, sub: None, range: range.clone() },
                    Step::Take { s: 0, n: taken },
                    exact(on.clone()),
                    exact(Op::Put(b"m".to_vec(), None)),
                    exact(off.clone()),
                    Step::Finish { s: 0 },
                    Step::Check { h: 0 },
                ];
                run(ctx, &sc);
            }
            let (_, polls) = measure(&s.log, false, &Op::Traverse(range.clone()));
            for p in (1..=polls).step_by(if t { 1 } else { polls / 24 + 1 }) {
                let mut sc = Script::new(s.log.clone());
                sc.steps = vec![
                    Step::Open { h: 0, sub: None, range: range.clone() },
                    Step::Poll { s: 0, polls: p },
                    exact(on.clone()),
                    exact(off.clone()),
                    Step::Finish { s: 0 },
                ];
                run(ctx, &sc);
            }
        }
        let (_, polls) = measure(&s.log, false, &on);
        for p in 1..=polls + 1 {
            let mut sc = Script::new(s.log.clone());
            sc.steps = vec![Step::Cancel { h: 0, op: on.clone(), polls: p }, exact(off.clone()), Step::Check { h: 0 }, exact(Op::Put(b"m".to_vec(), None)), Step::CheckFresh];
            run(ctx, &sc);
        }
    });
    ctx.note("streams added around every operation");
    // concurrently
    let mut progs = vec![];
    for (_, s) in c_sched::stores() {
        let mut others = c_sched::writes(&s.spec);
        others.extend(c_sched::reads(&s.spec));
        others.push(Op::AddStream(7, false));
        for o in others {
            for pend in [false, true] {
                let mut sc = Sched::new(s.log.clone(), vec![vec![on.clone(), off.clone()], vec![o.clone()]]);
                sc.pend = pend;
                progs.push((sc, if t { 3 } else { 2 }));
                let mut sc = Sched::new(s.log.clone(), vec![vec![on.clone()], vec![o.clone(), Op::AddStream(9, true)], vec![off.clone()]]);
                sc.pend = pend;
                sc.lock = false;
                progs.push((sc, 4));
                // a task that is dropped
                for (i, how) in [(0, sched::Stop::Drop), (1, sched::Stop::Drop)] {
                    let mut sc = Sched::new(s.log.clone(), vec![vec![on.clone()], vec![o.clone()]]);
                    sc.pend = pend;
                    sc.stop = Some((i, how));
                    progs.push((sc, 1));
                }
            }
        }
    }
    explore(ctx, "streams added concurrently", if t { 60_000 } else { 800 }, progs);
    // connected stores: all orders of delivery
    let logs: Vec<&State> = states.iter().filter(|s| s.spec.len > 0 && s.spec.len <= if t { 8 } else { 7 }).collect();
    let mut work = vec![];
    for s in logs {
        for have in 0..=s.log.len() {
            let rest: Vec<u64> = (have..s.log.len()).collect();
            if rest.len() > if t { 7 } else { 6 } {
                continue;
            }
            for order in permutations(&rest) {
                work.push((s, have, order));
            }
        }
    }
    ctx.count("orders_of_delivery", work.len() as u64);
    ctx.par(&work, |(s, have, order)| {
        let k = s.spec.map.keys().next().cloned().unwrap_or(b"a".to_vec());
        let w1 = vec![Op::Put(b"new".to_vec(), None), Op::Del(k)];
        let variants = if t || order.len() <= 4 { vec![(false, vec![], false), (true, w1.clone(), true), (false, w1, false)] } else { vec![(order[0] % 2 == 0, w1, order[1] % 2 == 0)] };
        for (first, writes, warm) in variants {
            ctx.case("repl", &Repl { log: s.log.clone(), have: *have, order: order.clone(), first, writes, warm }, run_repl);
        }
    });
    // larger trees: in order, reversed, interleaved
    let big = two_and_three_levels();
    ctx.par(&big, |s| {
        let n = s.log.len();
        for have in [0, 1, n / 2, n - 1] {
            let rest: Vec<u64> = (have..n).collect();
            let mut odd: Vec<u64> = rest.iter().copied().filter(|x| x % 2 == 1).collect();
            odd.extend(rest.iter().copied().filter(|x| x % 2 == 0));
            for order in [rest.clone(), rest.iter().rev().copied().collect(), odd] {
                ctx.case("repl", &Repl { log: s.log.clone(), have, order, first: true, writes: vec![Op::Put(b"new".to_vec(), None)], warm: true }, run_repl);
            }
        }
    });
    ctx.note("connected stores");
}

// ---------------------------------------------------------------------------------------------------------------- C26

/// A store whose core is made by hyperbee itself: in memory, or in a storage directory
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Opened {
    /// in a directory with this log in it
    pub disk: Option<DiskLog>,
    pub ops: Vec<Op>,
    /// the last operation is dropped after so many polls
    pub cancel: Option<u64>,
    /// 0: the store alone; 1: a sub outlives it; 2: another store was opened, and dropped first; 3: dropped last
    pub how: u8,
    /// results, the version after every operation, and what is stored, are those specified
    #[serde(default)]
    pub results: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DiskLog {
    #[serde(with = "logser")]
    pub log: Log,
    /// the path is that of a file, so it cannot be opened
    pub invalid: bool,
}

pub fn run_opened(o: &Opened) -> Result<(u64, u64), String> {
    mcrt::set_mode(mcrt::Mode::Seq);
    let idle = CoreHandle::new(Log::default());
    let before = hypercore::mc::built();
    let gone = |what: &str| match hypercore::mc::built() - before {
        0 => Ok(()),
        n => Err(format!("{n} core(s) not released after {what}")),
    };
    let dir = o.disk.as_ref().map(|d| Dir::new(&d.log));
    let path = |d: &Dir| if o.disk.as_ref().unwrap().invalid { d.0.join("blocks") } else { d.0.clone() };
    let open = || -> Result<Result<hyperbee::Hyperbee, String>, String> {
        let r = match &dir {
            Some(d) => exec::run(&idle, hyperbee::Hyperbee::from_storage_dir(path(d))),
            None => exec::run(&idle, hyperbee::Hyperbee::from_ram()),
        };
        Ok(r.map_err(|b| format!("opening {b}"))?.map_err(|e| format!("{e:?}")))
    };
    if o.disk.as_ref().is_some_and(|d| d.invalid) {
        if open()?.is_ok() {
            return Err("a path that cannot be a storage directory was opened".into());
        }
        gone("an opening that failed")?;
        return Ok((0, 1));
    }
    let mut other = if o.how >= 2 { Some(open()??) } else { None };
    let hb = open()??;
    if o.how == 2 {
        other = None;
    }
    let mut h = DefaultHasher::new();
    let whole = o.ops.len() - o.cancel.is_some() as usize;
    let mut spec = Spec::of_log(&o.disk.as_ref().map_or(shapes::empty(), |d| d.log.clone()));
    let look = |spec: &Spec| -> Result<(), String> {
        match exec::run(&idle, apply(&hb, &Op::Version)).map_err(|b| format!("the version {b}"))? {
            Res::Version(v) if v == spec.len => (),
            r => return Err(format!("the version is {r:?}, expected {}", spec.len)),
        }
        let Some(d) = &dir else { return Ok(()) };
        let log = d.log()?;
        if log.len() != spec.len {
            return Err(format!("{} blocks are stored, expected {}", log.len(), spec.len));
        }
        if o.disk.as_ref().unwrap().log.is_empty() && !log.is_empty() {
            let want = Spec::of_log(&log.prefix(1)).header;
            if want != spec.header {
                return Err(format!("the header stored is {want:?}, expected {:?}", spec.header));
            }
        }
        Ok(())
    };
    if o.results {
        look(&spec).map_err(|e| format!("just opened: {e}"))?;
    }
    for op in &o.ops[..whole] {
        let r = exec::run(&idle, apply(&hb, op)).map_err(|b| format!("{op:?} {b}"))?;
        format!("{r:?}").hash(&mut h);
        if o.results {
            match spec.apply(op) {
                Some(want) if !script::res_eq(&want, &r) => return Err(format!("{op:?}: returned {r:?}, expected {want:?}")),
                _ => (),
            }
            look(&spec).map_err(|e| format!("after {op:?}: {e}"))?;
        }
    }
    if let Some(p) = o.cancel {
        let mut f: std::pin::Pin<Box<_>> = Box::pin(apply(&hb, &o.ops[whole]));
        let _ = exec::run_polls(&idle, &mut f, &Flag::new(), p as usize).map_err(|b| format!("{:?} {b}", o.ops[whole]))?;
    }
    if o.how == 1 {
        let sub = hb.sub(b"a", Default::default());
        drop(hb);
        exec::run(&idle, sub.put(b"k", None)).map_err(|b| format!("a put through a sub {b}"))?.map_err(|e| format!("{e:?}"))?;
        drop(sub);
    } else {
        drop(hb);
    }
    drop(other);
    gone("the store and all that belongs to it have been dropped")?;
    if dir.is_some() {
        open()??;
        gone("opening the storage directory again")?;
    }
    Ok((h.finish(), o.ops.len() as u64))
}

/// All sequences of operations on stores whose cores hyperbee makes itself
pub fn opened(ctx: &Ctx, ops: &[Op], depth: usize) {
    let mut logs = vec![None];
    let mut l = shapes::empty();
    logs.push(Some(l.clone()));
    l = shapes::header_only();
    logs.push(Some(l.clone()));
    for k in 0..6 {
        l = shapes::model_step(&l, &Op::Put(shapes::nth_key(k), shapes::value(k as u64))).unwrap();
        if k == 0 || k == 5 {
            logs.push(Some(l.clone()));
        }
    }
    let mut work = vec![];
    for l in &logs {
        for n in 0..ops.len().pow(depth as u32) {
            work.push((l.clone(), n));
        }
    }
    ctx.par(&work, |(log, n)| {
        let mut n = *n;
        let mut seq = vec![];
        for _ in 0..depth {
            seq.push(ops[n % ops.len()].clone());
            n /= ops.len();
        }
        let o = Opened { disk: log.clone().map(|log| DiskLog { log, invalid: false }), ops: seq, cancel: None, how: (n % 2) as u8 * 3, results: true };
        ctx.case("opened", &o, run_opened);
    });
    ctx.note(format!("all sequences of {depth} operations in memory and in storage directories"));
}

pub fn c26(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut states = shapes::reachable(ctx, if t { 20 } else { 15 });
    states.push(shapes::state(shapes::header_only()));
    let reached = states.len();
    states.extend(two_and_three_levels());
    ctx.count("starting_stores", states.len() as u64);
    let mut work = vec![];
    for (i, s) in states.iter().enumerate() {
        let ops = if i < reached { all_ops(&s.spec) } else { some_ops(&s.spec, if t { 200 } else { 50 }) };
        for op in ops {
            for warm in [false, true] {
                work.push((s, op.clone(), warm));
            }
        }
    }
    let after = Op::Put(b"zz".to_vec(), None);
    ctx.par(&work, |(s, op, warm)| {
        let go = |steps: Vec<Step>| {
            let mut sc = Script::new(s.log.clone());
            sc.warm = *warm;
            sc.release = true;
            sc.results = false;
            sc.panics_elsewhere = true;
            sc.steps = steps;
            run(ctx, &sc);
        };
        go(vec![exact(op.clone())]);
        go(vec![exact(op.clone()), exact(op.clone()), exact(after.clone()), exact(Op::Traverse(Range::all()))]);
        // through a second handle as well
        go(vec![Step::Reopen, exact(op.clone()), Step::Do { h: 1, op: Op::Traverse(Range::all().rev()), want: Want::Any, plan: Plan::default() }]);
        let (n, polls) = measure(&s.log, *warm, op);
        for f in 0..n {
            go(vec![Step::Do { h: 0, op: op.clone(), want: Want::Any, plan: Plan { fail: vec![f], ..Plan::default() } }]);
            go(vec![Step::Do { h: 0, op: op.clone(), want: Want::Any, plan: Plan { fail: (f..f + 40).collect(), ..Plan::default() } }, exact(after.clone())]);
        }
        for p in (1..=polls).step_by(if polls > 80 { polls / 40 } else { 1 }) {
            go(vec![Step::Cancel { h: 0, op: op.clone(), polls: p }]);
            go(vec![Step::Suspend { h: 0, op: op.clone(), polls: p }]);
            if op.mutates() {
                go(vec![Step::Suspend { h: 0, op: op.clone(), polls: p }, Step::Do { h: 0, op: Op::Get(b"k".to_vec()), want: Want::Any, plan: Plan::default() }]);
            }
        }
    });
    ctx.note("completed, failed, cancelled and suspended operations");
    // open traversals, of the store and of subs
    let mut work = vec![];
    for s in &states {
        let p = s.spec.map.keys().nth(s.spec.map.len() / 2).map(|k| k[..1].to_vec()).unwrap_or_default();
        for sub in [None, Some(Sub { prefix: p, sep: Some(vec![]) })] {
            for range in [Range::all(), Range::all().rev()] {
                work.push((s, sub.clone(), range));
            }
        }
    }
    ctx.par(&work, |(s, sub, range)| {
        let n = match sub {
            None => s.spec.range(range).len(),
            Some(sub) => s.spec.sub_range(sub, range).len(),
        };
        let go = |steps: Vec<Step>| {
            let mut sc = Script::new(s.log.clone());
            sc.release = true;
            sc.results = false;
            sc.panics_elsewhere = true;
            sc.steps = vec![Step::Open { h: 0, sub: sub.clone(), range: range.clone() }];
            sc.steps.extend(steps);
            run(ctx, &sc);
        };
        for taken in 0..=n {
            go(vec![Step::Take { s: 0, n: taken }]);
            go(vec![Step::Take { s: 0, n: taken }, exact(after.clone()), Step::Take { s: 0, n: 1 }, Step::DropStream { s: 0 }, exact(Op::Get(b"k".to_vec()))]);
        }
        go(vec![Step::Finish { s: 0 }]);
        let (_, polls) = measure(&s.log, false, &Op::Traverse(range.clone()));
        for p in (1..=polls).step_by(polls / 60 + 1) {
            go(vec![Step::Poll { s: 0, polls: p }]);
            go(vec![Step::Poll { s: 0, polls: p }, Step::Missing { blocks: (0..s.log.len()).collect(), wait: false }, Step::Take { s: 0, n: 3 }]);
        }
    });
    ctx.note("open traversals");
    // cores that hyperbee makes itself
    let few: Vec<&State> = states.iter().step_by(if t { 1 } else { 4 }).collect();
    ctx.par(&few, |s| {
        let go = |o: Opened| ctx.case("opened", &o, run_opened);
        let disk = |log: &Log| Some(DiskLog { log: log.clone(), invalid: false });
        for (at, ops) in [(disk(&s.log), some_ops(&s.spec, 60)), (disk(&shapes::empty()), all_ops(&Spec::of_log(&shapes::empty()))), (None, some_ops(&s.spec, 60))] {
            for how in 0..4 {
                go(Opened { disk: at.clone(), ops: vec![], cancel: None, how, results: false });
                for op in &ops {
                    go(Opened { disk: at.clone(), ops: vec![op.clone()], cancel: None, how, results: false });
                    if how == 0 {
                        go(Opened { disk: at.clone(), ops: vec![op.clone(), after.clone(), Op::Traverse(Range::all()), op.clone()], cancel: None, how, results: false });
                    }
                    let (_, polls) = measure(&s.log, false, op);
                    for p in 1..=polls.min(if t { 30 } else { 4 }) as u64 {
                        go(Opened { disk: at.clone(), ops: vec![after.clone(), op.clone()], cancel: Some(p), how, results: false });
                    }
                }
            }
        }
        // (where the directory has a file)
        if !s.log.is_empty() {
            go(Opened { disk: Some(DiskLog { log: s.log.clone(), invalid: true }), ops: vec![], cancel: None, how: 0, results: false });
        }
    });
    ctx.note("cores in memory and in storage directories");
}
