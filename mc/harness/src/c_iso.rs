//! C30: stores are independent of each other.
use crate::c_fault::{all_ops, exact, measure, some_ops, two_and_three_levels};
use crate::ops::*;
use crate::report::Ctx;
use crate::script::{self, Pair, Plan, Script, Step, Want};
use crate::shapes::{self, State};
use hypercore::mc::Log;

fn sc(log: &Log, steps: Vec<Step>) -> Script {
    let mut s = Script::new(log.clone());
    s.len = true;
    s.bytes = true;
    s.steps = steps;
    s
}

/// The same keys, other values, at other indexes
fn other(s: &State) -> State {
    let mut log = shapes::header_only();
    for k in s.spec.map.keys().rev() {
        log = shapes::model_step(&log, &Op::Put(k.clone(), Some(b"other".to_vec()))).unwrap();
    }
    shapes::state(log)
}

fn do_as(op: &Op, want: Want, plan: Plan) -> Step {
    Step::Do { h: 0, op: op.clone(), want, plan }
}

pub fn c30(ctx: &Ctx) {
    let t = ctx.thorough;
    let go = |p: Pair| {
        ctx.case("pair", &p, script::run_pair);
        // the same through subs that have all keys, and that are opened first and used for everything
        if t || (p.a.log.blocks.len() + p.b.log.blocks.len() + p.order.len()) % 3 == 0 {
            let mut p = p.clone();
            (p.a.keep, p.b.keep) = (Keep::Through, Keep::Through);
            ctx.case("pair", &p, script::run_pair);
        }
    };
    let looks = || vec![Step::Check { h: 0 }, Step::CheckFresh, Step::CheckHeader];

    // every sequence of operations on two stores
    let (k, l) = (shapes::nth_key(0), shapes::nth_key(1));
    let ops = [
        Op::Put(k.clone(), Some(b"v".to_vec())),
        Op::Put(l.clone(), None),
        Op::Del(k.clone()),
        Op::Get(k.clone()),
        Op::Traverse(Range::all()),
        Op::Version,
        Op::Header(Some((None, Some(b"data".to_vec())))),
        Op::PutCas(k.clone(), None, Cas::Reject),
        Op::In(Sub { prefix: k[..1].to_vec(), sep: Some(vec![]) }, Box::new(Op::Put(k[1..].to_vec(), None))),
    ];
    let grown = |n: usize, v: &[u8]| (0..n).fold(shapes::header_only(), |l, i| shapes::model_step(&l, &Op::Put(shapes::nth_key(i), Some(v.to_vec()))).unwrap());
    let starts = [
        (shapes::empty(), shapes::empty()),
        (shapes::empty(), grown(2, b"x")),
        (grown(9, b"x"), grown(9, b"y")),
        (grown(1, b"x"), grown(12, b"y")),
    ];
    let depth = if t { 5 } else { 4 };
    let mut work = vec![];
    for (i, _) in starts.iter().enumerate() {
        for a in 0..2 * ops.len() {
            for b in 0..2 * ops.len() {
                work.push((i, a, b));
            }
        }
    }
    ctx.count("starting_stores", 2 * starts.len() as u64);
    ctx.par(&work, |&(i, a, b)| {
        let m = 2 * ops.len();
        for mut n in 0..m.pow(depth - 2) {
            let mut seq = vec![a, b];
            for _ in 2..depth {
                seq.push(n % m);
                n /= m;
            }
            // (that a store alone behaves is not looked at again)
            if seq.iter().all(|x| x % 2 == seq[0] % 2) {
                continue;
            }
            let mut p = Pair { a: sc(&starts[i].0, vec![]), b: sc(&starts[i].1, vec![]), order: vec![] };
            for x in seq {
                p.order.push((x % 2) as u8);
                let s = if x % 2 == 0 { &mut p.a } else { &mut p.b };
                s.steps.push(exact(ops[x / 2].clone()));
            }
            for (o, s) in [(0, &mut p.a), (1, &mut p.b)] {
                s.steps.extend(looks());
                p.order.extend([o; 3]);
            }
            go(p);
        }
    });
    ctx.note(format!("all sequences of {depth} operations on two stores"));

    // an operation on one store that is suspended, fails, or is dropped, at every point; an operation on the other
    let mut states = shapes::reachable(ctx, if t { 14 } else { 10 });
    states.push(shapes::state(shapes::header_only()));
    let small = states.len();
    states.extend(two_and_three_levels().into_iter().step_by(if t { 1 } else { 3 }));
    ctx.count("starting_stores", states.len() as u64);
    let mut work = vec![];
    for (i, s) in states.iter().enumerate() {
        let ops = if i < small { all_ops(&s.spec) } else { some_ops(&s.spec, 12) };
        for op in ops {
            work.push((i, op));
        }
    }
    ctx.par(&work, |(i, op)| {
        let s = &states[*i];
        let o = other(s);
        let (n, polls) = measure(&s.log, false, op);
        let mut seconds = some_ops(&o.spec, if t { 16 } else { 5 });
        if let Op::Put(k, _) | Op::Del(k) = op {
            seconds.push(Op::Put(k.clone(), Some(b"same".to_vec())));
            seconds.push(Op::Del(k.clone()));
            seconds.push(Op::Get(k.clone()));
        }
        let all = |x: u8, n: usize| vec![x; n];
        for (j, second) in seconds.iter().enumerate() {
            for warm in [false, true] {
                let pair = |a: Vec<Step>, b: Vec<Step>, order: Vec<u8>| {
                    let mut p = Pair { a: sc(&s.log, a), b: sc(&o.log, b), order };
                    for (o, s) in [(0, &mut p.a), (1, &mut p.b)] {
                        s.warm = warm;
                        s.stride = 4;
                        s.steps.extend([Step::Check { h: 0 }, Step::CheckFresh]);
                        p.order.extend([o; 2]);
                    }
                    go(p);
                };
                let every = polls / if t { 60 } else { 12 } + 1;
                for p in (1 + j % every..=polls).step_by(every) {
                    // one preemption, and two
                    pair(vec![Step::Suspend { h: 0, op: op.clone(), polls: p }, Step::Resume], vec![exact(second.clone())], vec![0, 1, 0]);
                    let q = 1 + p * 7 % 23;
                    pair(
                        vec![Step::Suspend { h: 0, op: op.clone(), polls: p }, Step::Resume],
                        vec![Step::Suspend { h: 0, op: second.clone(), polls: q }, Step::Resume],
                        vec![0, 1, 0, 1],
                    );
                    // suspended for ever, or dropped (what it does then is C14)
                    let mut x = Pair { a: sc(&s.log, vec![]), b: sc(&o.log, vec![exact(second.clone()), Step::Check { h: 0 }]), order: all(0, 1) };
                    x.order.extend(all(1, 2));
                    x.b.warm = warm;
                    x.b.stride = 4;
                    x.a.steps = vec![Step::Suspend { h: 0, op: op.clone(), polls: p }];
                    go(x.clone());
                    x.a.steps = vec![Step::Cancel { h: 0, op: op.clone(), polls: p }];
                    go(x);
                }
                if n > 0 {
                    for f in 0..n.min(if t { 30 } else { 4 }) {
                        let fail = Plan { fail: vec![f], ..Plan::default() };
                        pair(vec![do_as(op, Want::ErrIfHit, fail), exact(op.clone())], vec![exact(second.clone()), exact(second.clone())], vec![0, 1, 0, 1]);
                    }
                }
            }
        }
    });
    ctx.note("suspended, dropped and failed operations on one, operations on the other");

    // traversals of both, with changes between their items
    let trav: Vec<&State> = states.iter().filter(|s| s.spec.map.len() > 1).collect();
    ctx.par(&trav, |s| {
        let o = other(s);
        let keys: Vec<K> = s.spec.map.keys().cloned().collect();
        for range in [Range::all(), Range::all().rev()] {
            let open = || Step::Open { h: 0, sub: None, range: range.clone() };
            for take in (0..=keys.len()).step_by(keys.len() / 12 + 1) {
                for (j, k) in keys.iter().enumerate().step_by(keys.len() / 10 + 1) {
                    let m = if j % 2 == 0 { Op::Del(k.clone()) } else { Op::Put(k.clone(), Some(b"new".to_vec())) };
                    let a = vec![open(), Step::Take { s: 0, n: take }, exact(m.clone()), Step::Finish { s: 0 }, Step::Check { h: 0 }];
                    let b = vec![open(), Step::Take { s: 0, n: j }, exact(m.clone()), Step::Finish { s: 0 }, Step::Check { h: 0 }];
                    for order in [[0, 1, 0, 1, 0, 1, 0, 1, 0, 1], [1, 1, 0, 0, 1, 0, 0, 0, 1, 1], [0, 0, 1, 1, 1, 0, 1, 1, 0, 0]] {
                        go(Pair { a: sc(&s.log, a.clone()), b: sc(&o.log, b.clone()), order: order.to_vec() });
                    }
                }
            }
        }
    });
    ctx.note("traversals of both");
    // many stores alive at the same time, and one after the other
    let hist: Vec<usize> = (0..if t { 64 } else { 24 }).collect();
    ctx.par(&hist, |&n| {
        let mut p = Pair { a: sc(&shapes::empty(), vec![]), b: sc(&grown(n % 5, b"z"), vec![]), order: vec![] };
        for i in 0..60 {
            let k = shapes::nth_key((i * (n + 1)) % 19);
            let op = match (i + n) % 5 {
                0 | 1 => Op::Put(k, shapes::value(i as u64)),
                2 => Op::Del(k),
                3 => Op::Put(k, Some(vec![n as u8])),
                _ => Op::Get(k),
            };
            let x = (i * i + n * i) / 3 % 2;
            let s = if x == 0 { &mut p.a } else { &mut p.b };
            s.steps.extend([exact(op), Step::Check { h: 0 }]);
            p.order.extend([x as u8; 2]);
            if i % 10 == 9 {
                p.a.steps.push(Step::Reopen);
                p.order.push(0);
            }
        }
        go(p);
    });
    ctx.note("long histories of two stores");
}
