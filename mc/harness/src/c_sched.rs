//! C11, C12 (concurrent part), C17 (concurrent part): all schedules of small concurrent programs.
use crate::ops::*;
use crate::report::Ctx;
use crate::sched::{self, Sched};
use crate::shapes::{self, Shape::*, State};
use hypercore::mc::Log;

fn one_key() -> State {
    shapes::build(&Leaf(1))
}

pub fn stores() -> Vec<(&'static str, State)> {
    let st = |log: Log| shapes::state(log);
    vec![
        ("empty", st(shapes::empty())),
        ("header", st(shapes::header_only())),
        ("1 key", one_key()),
        ("full leaf", shapes::build(&Leaf(8))),
        ("two leaves that merge", shapes::build(&Node(vec![Leaf(4), Leaf(4)]))),
        ("two leaves that rotate", shapes::build(&Node(vec![Leaf(4), Leaf(5)]))),
        ("full leaves", shapes::build(&Node(vec![Leaf(8), Leaf(8)]))),
    ]
}

pub fn big_stores() -> Vec<(&'static str, State)> {
    let mid = |k: usize, leaf: usize| Node((0..=k).map(|_| Leaf(leaf)).collect());
    vec![
        ("full root", shapes::build(&Node(vec![Leaf(8); 9]))),
        ("three levels that merge", shapes::build(&Node(vec![mid(4, 4), mid(4, 4)]))),
    ]
}

/// Writes at different places, conditional and not
pub fn writes(spec: &Spec) -> Vec<Op> {
    let gaps = shapes::gaps(spec);
    let (g0, g1) = (gaps[0].clone(), gaps[gaps.len() / 2].clone());
    let mut v = vec![
        Op::Put(g0.clone(), Some(b"a".to_vec())),
        Op::PutCas(g1.clone(), Some(b"b".to_vec()), Cas::IfAbsent),
        Op::In(Sub { prefix: b"zz".to_vec(), sep: None }, Box::new(Op::Put(b"k".to_vec(), None))),
    ];
    if spec.len == 0 {
        v.push(Op::Header(Some((Some(b"feed".to_vec()), None))));
        v.push(Op::PutCas(g0, None, Cas::Reject));
    }
    let keys: Vec<(&K, u64)> = spec.map.iter().map(|(k, v)| (k, v.0)).collect();
    if let Some((k, s)) = keys.first() {
        v.push(Op::Put(k.to_vec(), Some(b"c".to_vec())));
        v.push(Op::Del(k.to_vec()));
        v.push(Op::PutCas(k.to_vec(), Some(b"d".to_vec()), Cas::IfSeq(*s)));
    }
    if keys.len() > 1 {
        let (k, s) = keys[keys.len() / 2];
        v.push(Op::Del(k.clone()));
        v.push(Op::DelCas(k.clone(), Cas::IfSeq(s)));
        v.push(Op::PutCas(k.clone(), None, Cas::IfSeq(s)));
    }
    v
}
pub fn reads(spec: &Spec) -> Vec<Op> {
    let gaps = shapes::gaps(spec);
    let mut v = vec![Op::Version, Op::Get(gaps[0].clone()), Op::Traverse(Range::all())];
    if let Some(k) = spec.map.keys().nth(spec.map.len() / 2) {
        v.push(Op::Get(k.clone()));
    }
    v
}

/// Operations that are neither of these
pub fn rest(spec: &Spec) -> Vec<Op> {
    let mut v = vec![Op::AddStream(1, true), Op::AddStream(2, false), Op::Header(None), Op::Del(b"not there".to_vec()), Op::Height];
    if spec.len > 1 {
        v.push(Op::Print);
    }
    v
}

struct Prog {
    sc: Sched,
    bound: usize,
}

fn explore_all(ctx: &Ctx, what: &str, budget: u64, progs: Vec<Prog>) {
    let (s0, p0) = (ctx.get("schedules"), progs.len());
    ctx.par(&progs, |p| {
        sched::explore(ctx, &p.sc, p.bound, budget);
    });
    ctx.note(format!("{what}: {p0} programs, {} schedules", ctx.get("schedules") - s0));
}

fn pairs(spec: &Spec) -> Vec<(Op, Op)> {
    let (w, r) = (writes(spec), reads(spec));
    let mut v = vec![];
    for (i, a) in w.iter().enumerate() {
        for b in &w[i..] {
            v.push((a.clone(), b.clone()));
        }
        for b in &r {
            v.push((a.clone(), b.clone()));
        }
    }
    v
}

fn prog(st: &State, tasks: Vec<Vec<Op>>, warm: bool) -> Sched {
    let mut sc = Sched::new(st.log.clone(), tasks);
    sc.warm = warm;
    sc
}

/// Two writes and a third operation
fn triples(spec: &Spec) -> Vec<[Op; 3]> {
    let (w, r) = (writes(spec), reads(spec));
    let mut v = vec![];
    for i in 0..w.len() {
        for j in i..w.len() {
            for k in j..w.len() {
                v.push([w[i].clone(), w[j].clone(), w[k].clone()]);
            }
            for b in &r {
                v.push([w[i].clone(), w[j].clone(), b.clone()]);
            }
        }
    }
    v
}

/// Many tasks at once, `n` in each program: the same operation on different keys, and mixtures
fn crowds(spec: &Spec, n: usize) -> Vec<Vec<Vec<Op>>> {
    let gaps = shapes::gaps(spec);
    let key = |i: usize| [&gaps[i % gaps.len()][..], b"+", i.to_string().as_bytes()].concat();
    let old: Vec<&K> = spec.map.keys().collect();
    let put = |i: usize| Op::Put(key(i), Some(vec![i as u8]));
    let some = |i: usize| old.get(i % old.len().max(1)).map_or_else(|| key(i), |k| k.to_vec());
    let all: Vec<Box<dyn Fn(usize) -> Op>> = vec![
        Box::new(put),
        Box::new(|i| Op::Get(some(i))),
        Box::new(|i| Op::Del(some(i))),
        Box::new(|_| Op::Traverse(Range::all())),
        Box::new(|i| match i % 3 {
            0 => put(i),
            1 => Op::Get(key(i - 1)),
            _ => Op::Traverse(Range::all()),
        }),
        Box::new(|i| match i % 4 {
            0 => Op::PutCas(some(0), Some(vec![i as u8]), Cas::Accept),
            1 => Op::Del(some(i)),
            2 => Op::Get(some(i + 1)),
            _ => Op::In(Sub { prefix: b"zz".to_vec(), sep: None }, Box::new(put(i))),
        }),
    ];
    all.iter().map(|f| (0..n).map(|i| vec![f(i)]).collect()).collect()
}

pub fn c11(ctx: &Ctx) {
    let t = ctx.thorough;
    let budget = if t { 200_000 } else { 2_000 };
    let (st, big) = (stores(), big_stores());
    let mut progs = vec![];
    for (_, s) in &st {
        for (a, b) in pairs(&s.spec) {
            for warm in [false, true] {
                progs.push(Prog { sc: prog(s, vec![vec![a.clone()], vec![b.clone()]], warm), bound: if t { 3 } else { 2 } });
            }
        }
    }
    explore_all(ctx, "two operations, every lock and core operation a scheduling point", budget, progs);

    let mut progs = vec![];
    for (_, s) in st.iter().chain(&big) {
        for (a, b) in pairs(&s.spec) {
            let mut sc = prog(s, vec![vec![a], vec![b]], true);
            sc.lock = false;
            progs.push(Prog { sc, bound: 99 });
        }
    }
    explore_all(ctx, "two operations, core operations are scheduling points", budget, progs);

    // a task's own later read, and what it says about the other task's write
    let mut progs = vec![];
    for (_, s) in &st {
        let w = writes(&s.spec);
        for a in &w {
            for b in &w {
                let key = |o: &Op| match on_parent(o) {
                    Op::Put(k, _) | Op::PutCas(k, ..) | Op::Del(k) | Op::DelCas(k, _) => Op::Get(k),
                    _ => Op::Version,
                };
                let mut sc = prog(s, vec![vec![a.clone(), key(b)], vec![b.clone(), key(a)]], false);
                progs.push(Prog { sc: sc.clone(), bound: if t { 2 } else { 1 } });
                sc.lock = false;
                progs.push(Prog { sc: sc.clone(), bound: if t { 5 } else { 3 } });
                sc.tasks[0].ops.push(Op::Traverse(Range::all()));
                sc.tasks[1].ops = vec![b.clone(), a.clone()];
                progs.push(Prog { sc, bound: if t { 5 } else { 3 } });
            }
        }
    }
    explore_all(ctx, "two tasks of several operations", budget, progs);

    // the tasks share a sub that was opened first, or one uses it and the other does not
    let mut progs = vec![];
    for (_, s) in &st {
        for (i, (a, b)) in pairs(&s.spec).into_iter().enumerate() {
            for mixed in [false, true] {
                for twice in [false, true] {
                    let mut sc = prog(s, vec![vec![a.clone()], vec![b.clone()]], i % 2 == 0);
                    sc.keep = if mixed { Keep::One } else { Keep::Through };
                    if mixed {
                        sc.tasks[1].ops = vec![through(&b)];
                    }
                    if twice {
                        let (a, b) = (sc.tasks[0].ops[0].clone(), sc.tasks[1].ops[0].clone());
                        sc.tasks[0].ops.push(b);
                        sc.tasks[1].ops.push(a);
                    }
                    sc.lock = false;
                    progs.push(Prog { sc: sc.clone(), bound: if !twice { 99 } else if t { 4 } else { 2 } });
                    if !twice {
                        sc.lock = true;
                        progs.push(Prog { sc, bound: if t { 2 } else { 1 } });
                    }
                }
            }
        }
    }
    explore_all(ctx, "two tasks that share a sub", budget, progs);

    let mut progs = vec![];
    for (_, s) in &st {
        for (i, [a, b, c]) in triples(&s.spec).into_iter().enumerate() {
            if !t && i % 2 == 1 {
                continue;
            }
            let mut sc = prog(s, vec![vec![a], vec![b], vec![c]], i % 4 == 0);
            if t {
                progs.push(Prog { sc: sc.clone(), bound: 1 });
            }
            sc.lock = false;
            progs.push(Prog { sc, bound: if t { 4 } else { 2 } });
        }
    }
    explore_all(ctx, "three operations", budget, progs);

    let mut progs = vec![];
    for (_, s) in &big {
        for (a, b) in pairs(&s.spec) {
            progs.push(Prog { sc: prog(s, vec![vec![a], vec![b]], true), bound: if t { 2 } else { 1 } });
        }
    }
    explore_all(ctx, "two operations on larger trees", budget, progs);

    let mut progs = vec![];
    for (_, s) in &st {
        for n in [4, 6, 12, 40] {
            if n > 12 && !t && s.spec.map.len() > 8 {
                continue;
            }
            for tasks in crowds(&s.spec, n) {
                for warm in [false, true] {
                    let mut sc = prog(s, tasks.clone(), warm);
                    sc.delay = true;
                    sc.lock = n <= 6;
                    progs.push(Prog { sc, bound: if n <= 6 { 2 } else { 1 } });
                }
            }
        }
    }
    explore_all(ctx, "many tasks", if t { 20_000 } else { 1_500 }, progs);
}

/// C13 (concurrent part): of two or three concurrent operations one fails, at any of its core operations
pub fn failing(ctx: &Ctx) {
    let t = ctx.thorough;
    let budget = if t { 20_000 } else { 300 };
    let mut progs = vec![];
    let st = stores();
    for (_, s) in &st {
        let (w, r) = (writes(&s.spec), reads(&s.spec));
        let mut all = pairs(&s.spec);
        all.extend(r.iter().flat_map(|a| r.iter().map(move |b| (a.clone(), b.clone()))));
        for (i, (a, b)) in all.into_iter().enumerate() {
            for warm in [false, true] {
                // what the tasks do afterwards does not fail
                let mut sc = prog(s, vec![vec![a.clone()], vec![b.clone(), a.clone()]], warm);
                sc.tasks[0].ops.push(w[i % w.len()].clone());
                sc.lock = false;
                let n = sched::core_ops(&sc);
                for f in 0..n {
                    if !t && (f as usize + i) % 2 == 1 && n > 6 {
                        continue;
                    }
                    let mut sc = sc.clone();
                    sc.fail = vec![f];
                    if (i + f as usize) % 5 == 0 {
                        sc.keep = Keep::Through;
                    }
                    progs.push(Prog { sc: sc.clone(), bound: if t { 3 } else { 2 } });
                    if f + 1 < n && (t || i % 3 == 0) {
                        sc.fail = vec![f, f + 1];
                        progs.push(Prog { sc: sc.clone(), bound: if t { 2 } else { 1 } });
                    }
                    sc.fail = vec![f];
                    sc.lock = true;
                    progs.push(Prog { sc, bound: 1 });
                }
            }
        }
    }
    explore_all(ctx, "an operation fails while others go on", budget, progs);
}

pub fn c12(ctx: &Ctx) {
    use crate::c_fault::{all_ops, measure};
    use crate::script::{Plan, Script, Step, Want};
    let t = ctx.thorough;
    let budget = if t { 100_000 } else { 600 };
    // one operation: every core operation delayed, alone and all together; a waiting task must be woken
    let mut starts: Vec<State> = stores().into_iter().map(|s| s.1).collect();
    starts.extend(crate::c_fault::two_and_three_levels());
    if t {
        starts.extend(shapes::reachable(ctx, 20));
    }
    ctx.par(&starts, |s| {
        for op in all_ops(&s.spec) {
            for warm in [false, true] {
                let (n, _) = measure(&s.log, warm, &op);
                let mut plans = vec![Plan { pend_all: true, ..Default::default() }];
                plans.extend((0..n).map(|i| Plan { pend: vec![i], ..Default::default() }));
                for plan in plans {
                    let mut sc = Script::new(s.log.clone());
                    sc.warm = warm;
                    sc.steps.push(Step::Do { h: 0, op: op.clone(), want: Want::Any, plan });
                    ctx.case("script", &sc, crate::script::run);
                }
            }
        }
    });
    ctx.count("states", starts.len() as u64);
    ctx.note(format!("delayed core operations: {} stores", starts.len()));

    // several tasks, also preempted inside critical sections
    let (st, big) = (stores(), big_stores());
    let mut progs = vec![];
    for (i, (_, s)) in st.iter().chain(&big).enumerate() {
        for (a, b) in pairs(&s.spec) {
            for (warm, pend) in [(false, false), (true, true), (false, true)] {
                if warm && i == 0 {
                    continue;
                }
                let mut sc = prog(s, vec![vec![a.clone()], vec![b.clone()]], warm);
                sc.linear = false;
                sc.hold = true;
                sc.pend = pend;
                progs.push(Prog { sc, bound: if t { 3 } else { 2 } });
            }
        }
        for a in reads(&s.spec) {
            for b in reads(&s.spec) {
                let mut sc = prog(s, vec![vec![a.clone()], vec![b.clone()]], false);
                sc.linear = false;
                sc.hold = true;
                progs.push(Prog { sc, bound: if t { 3 } else { 2 } });
            }
        }
    }
    explore_all(ctx, "two tasks, preempted anywhere", budget, progs);

    // the remaining operations, against everything
    let mut progs = vec![];
    for (i, (_, s)) in st.iter().enumerate() {
        let rest = rest(&s.spec);
        let mut all = rest.clone();
        all.extend(writes(&s.spec));
        all.extend(reads(&s.spec));
        for (j, a) in rest.iter().enumerate() {
            for (k, b) in all[j..].iter().enumerate() {
                // long ones, mostly spent in traversing
                let long = |o: &Op| matches!(o, Op::Print | Op::Traverse(_)) && s.spec.map.len() > 10;
                if !t && (long(a) || long(b)) && (j + k) % 3 > 0 {
                    continue;
                }
                for warm in [false, true] {
                    if warm && i == 0 {
                        continue;
                    }
                    let mut sc = prog(s, vec![vec![a.clone()], vec![b.clone()]], warm);
                    sc.linear = false;
                    sc.hold = true;
                    sc.pend = warm;
                    progs.push(Prog { sc, bound: if t { 3 } else { 2 } });
                }
            }
        }
    }
    explore_all(ctx, "two tasks, remaining operations", budget / 2, progs);

    let mut progs = vec![];
    for (_, s) in &st {
        for (i, [a, b, c]) in triples(&s.spec).into_iter().enumerate() {
            if !t && i % 4 != 1 {
                continue;
            }
            let mut sc = prog(s, vec![vec![a], vec![b], vec![c]], i % 3 == 0);
            sc.linear = false;
            sc.hold = true;
            sc.pend = i % 2 == 0;
            progs.push(Prog { sc, bound: 2 });
        }
    }
    explore_all(ctx, "three tasks, preempted anywhere", budget, progs);

    let mut progs = vec![];
    for (_, s) in &st {
        for n in [5, 9, 34, 70] {
            if n > 9 && s.spec.map.len() > if t { 8 } else { 2 } {
                continue;
            }
            for tasks in crowds(&s.spec, n) {
                for pend in [false, true] {
                    let mut sc = prog(s, tasks.clone(), !pend);
                    sc.linear = false;
                    sc.delay = true;
                    sc.pend = pend;
                    sc.lock = n <= 5 || (t && n == 9);
                    sc.hold = n <= 5;
                    progs.push(Prog { sc, bound: if n == 70 { 0 } else { 1 } });
                }
            }
        }
    }
    explore_all(ctx, "many tasks", if t { 20_000 } else { 400 }, progs);

    // a task that its owner drops, or stops polling (traversals only)
    let mut progs = vec![];
    for (_, s) in st.iter().take(if t { 7 } else { 4 }) {
        let (mut w, r) = (writes(&s.spec), reads(&s.spec));
        if !t {
            w = w.into_iter().step_by(2).collect();
        }
        let tr = [Op::Traverse(Range::all()), Op::Traverse(Range::all().rev()), Op::In(Sub { prefix: b"m".to_vec(), sep: Some(vec![]) }, Box::new(Op::Traverse(Range::all())))];
        for other in w.iter().chain(&r) {
            for hold in [false, true] {
                for warm in [false, true] {
                    if !t && hold == warm {
                        continue;
                    }
                    for x in &tr {
                        let mut sc = prog(s, vec![vec![x.clone()], vec![other.clone()]], warm);
                        sc.linear = false;
                        sc.hold = hold;
                        sc.stop = Some((0, sched::Stop::Forget));
                        progs.push(Prog { sc, bound: if t { 2 } else { 1 } });
                    }
                    for x in w.iter().chain(&r) {
                        let mut sc = prog(s, vec![vec![x.clone()], vec![other.clone()]], warm);
                        sc.linear = false;
                        sc.hold = hold;
                        sc.stop = Some((0, sched::Stop::Drop));
                        progs.push(Prog { sc, bound: if t { 2 } else { 1 } });
                    }
                }
            }
        }
    }
    explore_all(ctx, "a task that is dropped or no longer polled", budget, progs);
}
