//! C12 (sequential part), C13, C14, C15, C24: failing and delayed core operations, cancellation, suspended traversals.
use crate::exec::{self, Flag};
use crate::ops::*;
use crate::report::Ctx;
use crate::script::{self, Plan, Script, Step, Want, World};
use crate::shapes::{self, State};
use hypercore::mc::Log;
use mcrt::Mode;
use std::pin::Pin;

pub fn run(ctx: &Ctx, s: &Script) {
    ctx.case("script", s, script::run);
    // the same through a sub that has all keys, and that is opened first and used for everything
    if s.log.blocks.len() <= if ctx.thorough { 40 } else { 12 } {
        let mut s = s.clone();
        s.keep = Keep::Through;
        ctx.case("script", &s, script::run);
        ctx.count("cases through a sub", 1);
    }
}
pub fn exact(op: Op) -> Step {
    Step::Do { h: 0, op, want: Want::Exact, plan: Plan::default() }
}

/// How many core operations `op` performs and in how many polls it completes
pub fn measure(log: &Log, warm: bool, op: &Op) -> (u64, usize) {
    let mut out = (0, 0);
    for explore in [false, true] {
        let w = World::new(log.clone());
        let hb = script::open(&w.core);
        if warm {
            let _ = exec::run(&w.core, apply(&hb, &Op::Traverse(Range::all())));
        }
        w.core.plan_reset();
        let mut f: Pin<Box<dyn std::future::Future<Output = Res>>> = {
            let op = op.clone();
            // SAFETY: dropped before the handle
            let hb: &'static hyperbee::Hyperbee = unsafe { &*(&hb as *const _) };
            Box::pin(async move { apply(hb, &op).await })
        };
        let flag = Flag::new();
        if explore {
            mcrt::set_mode(Mode::Explore);
        }
        let mut n = 0;
        while n < 20_000 {
            match exec::run_polls(&w.core, &mut f, &flag, 1) {
                Ok(None) => n += 1,
                _ => break,
            }
        }
        mcrt::set_mode(Mode::Seq);
        let _ = exec::catch(move || drop(f));
        if explore {
            out.1 = n
        } else {
            out.0 = w.core.with(|c| c.ops)
        }
    }
    out
}

fn sub_of(spec: &Spec) -> Sub {
    // a sub that covers part of the stored keys
    let p = spec.map.keys().nth(spec.map.len() / 2).map(|k| k[..1].to_vec()).unwrap_or_default();
    Sub { prefix: p, sep: Some(vec![]) }
}

/// All operations worth failing or cancelling
pub fn all_ops(spec: &Spec) -> Vec<Op> {
    let mut v = shapes::mutations(spec);
    let len = spec.len;
    for k in shapes::gaps(spec).into_iter().step_by(3) {
        v.push(Op::Get(k.clone()));
        v.push(Op::Del(k.clone()));
        v.push(Op::PutCas(k, None, Cas::Accept));
    }
    for (i, k) in spec.map.keys().enumerate() {
        v.push(Op::Get(k.clone()));
        match i % 3 {
            0 => v.push(Op::PutCas(k.clone(), shapes::value(len), Cas::Reject)),
            1 => v.push(Op::DelCas(k.clone(), Cas::Accept)),
            _ => v.push(Op::DelCas(k.clone(), Cas::Reject)),
        }
    }
    v.push(Op::Traverse(Range::all()));
    v.push(Op::Traverse(Range::all().rev()));
    let sub = sub_of(spec);
    for o in [Op::Put(b"\xf0".to_vec(), None), Op::Get(vec![]), Op::Del(vec![]), Op::Traverse(Range::all())] {
        v.push(Op::In(sub.clone(), Box::new(o)));
    }
    if spec.len == 0 {
        v.push(Op::Header(Some((Some(b"feed".to_vec()), None))));
        v.push(Op::Header(None));
    }
    v
}

/// Shapes that make every kind of rebalancing happen at two levels
pub fn two_and_three_levels() -> Vec<State> {
    use shapes::Shape::*;
    let mut v = vec![];
    for sizes in [
        vec![4, 4],
        vec![5, 4],
        vec![4, 5],
        vec![8, 4],
        vec![8, 8],
        vec![4, 4, 4],
        vec![4, 5, 4],
        vec![5, 4, 5],
        vec![8, 4, 8],
        vec![4, 8, 4],
        vec![8; 9],
    ] {
        v.push(shapes::build(&Node(sizes.into_iter().map(Leaf).collect())));
    }
    let mid = |k: usize, leaf: usize| Node((0..=k).map(|_| Leaf(leaf)).collect());
    v.push(shapes::build(&Node(vec![mid(4, 4), mid(4, 4)])));
    v.push(shapes::build(&Node(vec![mid(5, 4), mid(4, 4)])));
    v.push(shapes::build(&Node(vec![mid(4, 4), mid(5, 4)])));
    v
}

/// Fewer mutations for larger trees: those at a few positions
pub fn some_ops(spec: &Spec, n: usize) -> Vec<Op> {
    let all = all_ops(spec);
    if all.len() <= n {
        return all;
    }
    let step = all.len().div_ceil(n);
    let mut v: Vec<Op> = all.iter().step_by(step).cloned().collect();
    // always both ends
    v.extend(all.last().cloned());
    v
}

// ---------------------------------------------------------------------------------------------------------------- C13

pub fn c13(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut states = shapes::reachable(ctx, if t { 22 } else { 17 });
    states.push(shapes::state(shapes::header_only()));
    let reached = states.len();
    states.extend(two_and_three_levels());
    states.extend(shapes::far());
    ctx.count("starting_stores", states.len() as u64);
    let mut work: Vec<(usize, Op, bool)> = vec![];
    for (i, s) in states.iter().enumerate() {
        let ops = if i < reached { all_ops(&s.spec) } else { some_ops(&s.spec, if t { 1000 } else { 150 }) };
        for op in ops {
            for warm in [false, true] {
                work.push((i, op.clone(), warm));
            }
        }
    }
    ctx.par(&work, |(i, op, warm)| {
        let s = &states[*i];
        let (n, _) = measure(&s.log, *warm, op);
        ctx.count("fault_points", n);
        let small = s.spec.map.len() <= 10;
        for f in 0..n {
            let mut sc = Script::new(s.log.clone());
            sc.warm = *warm;
            sc.stride = if small { 0 } else { 5 };
            let failing = Step::Do { h: 0, op: op.clone(), want: Want::ErrIfHit, plan: Plan { fail: vec![f], ..Plan::default() } };
            sc.steps = vec![failing.clone(), Step::Check { h: 0 }, Step::CheckFresh];
            let pre = sc.clone();
            // the same operation again, as if nothing had happened
            sc.steps.extend([exact(op.clone()), Step::Check { h: 0 }, Step::CheckFresh, Step::CheckTree]);
            sc.bytes = true;
            run(ctx, &sc);
            if !op.mutates() {
                continue;
            }
            // failing twice, in any other place, then going on
            if small {
                for g in 0..n {
                    let mut sc = pre.clone();
                    let again = Step::Do { h: 0, op: op.clone(), want: Want::ErrIfHit, plan: Plan { fail: vec![g, g + 1], ..Plan::default() } };
                    sc.steps = vec![failing.clone(), again, exact(op.clone()), Step::Check { h: 0 }, Step::CheckFresh];
                    sc.bytes = true;
                    run(ctx, &sc);
                }
            }
            // another operation instead, on what is then in memory
            if small || t {
                for (j, other) in shapes::mutations(&s.spec).into_iter().enumerate() {
                    if !t && s.spec.map.len() > 4 && (j + f as usize) % 4 != 0 {
                        continue;
                    }
                    let mut sc = pre.clone();
                    sc.bytes = true;
                    sc.steps = vec![failing.clone(), exact(other), Step::Check { h: 0 }, Step::CheckFresh];
                    run(ctx, &sc);
                }
            }
        }
        // everything fails from some point on, and everything fails
        for f in 0..n {
            let mut sc = Script::new(s.log.clone());
            sc.warm = *warm;
            sc.stride = if small { 0 } else { 5 };
            let all: Vec<u64> = (f..n + 30).collect();
            sc.steps = vec![
                Step::Do { h: 0, op: op.clone(), want: Want::ErrIfHit, plan: Plan { fail: all, ..Plan::default() } },
                Step::Check { h: 0 },
                exact(op.clone()),
                Step::CheckFresh,
            ];
            run(ctx, &sc);
        }
    });
    // an operation that fails while others go on
    crate::c_sched::failing(ctx);
}

// ---------------------------------------------------------------------------------------------------------------- C14

pub fn c14(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut states = shapes::reachable(ctx, if t { 22 } else { 17 });
    states.push(shapes::state(shapes::header_only()));
    let reached = states.len();
    states.extend(two_and_three_levels());
    states.extend(shapes::far());
    ctx.count("starting_stores", states.len() as u64);
    let mut work: Vec<(usize, Op, bool)> = vec![];
    for (i, s) in states.iter().enumerate() {
        let ops = if i < reached && (t || s.spec.map.len() <= 11) { all_ops(&s.spec) } else { some_ops(&s.spec, if t { 60 } else { 20 }) };
        for op in ops {
            for warm in [false, true] {
                work.push((i, op.clone(), warm));
            }
        }
    }
    ctx.par(&work, |(i, op, warm)| {
        let s = &states[*i];
        let (_, polls) = measure(&s.log, *warm, op);
        ctx.count("cancellation_points", polls as u64);
        // traversals have hundreds of them and nothing to undo
        let step = if op.mutates() || polls < 60 { 1 } else { polls / 60 + 1 };
        let small = s.spec.map.len() <= 10;
        for k in (1..=polls).step_by(step) {
            let cancel = Step::Cancel { h: 0, op: op.clone(), polls: k };
            let mut sc = Script::new(s.log.clone());
            sc.warm = *warm;
            sc.stride = if small { 0 } else { 5 };
            sc.steps = vec![cancel.clone(), Step::Check { h: 0 }, Step::CheckFresh, Step::CheckTree];
            let follow = [Op::Put(b"zzz".to_vec(), None), op.clone()];
            for f in follow {
                let mut sc = sc.clone();
                sc.bytes = true;
                sc.steps.extend([exact(f), Step::Check { h: 0 }, Step::CheckFresh, Step::CheckTree]);
                run(ctx, &sc);
            }
            // directly followed by another mutation on what is in memory
            if op.mutates() && s.spec.map.len() <= if t { 10 } else { 9 } && (k % 3 == 0 || t) {
                for (j, f) in shapes::mutations(&s.spec).into_iter().enumerate() {
                    if !t && s.spec.map.len() > 3 && (j + k) % 5 != 0 {
                        continue;
                    }
                    let mut sc = Script::new(s.log.clone());
                    sc.warm = *warm;
                    sc.bytes = true;
                    sc.steps = vec![cancel.clone(), exact(f), Step::Check { h: 0 }, Step::CheckFresh];
                    run(ctx, &sc);
                }
            }
            // cancelled twice
            if op.mutates() && s.spec.map.len() <= 1 {
                for k2 in 1..=polls {
                    let mut sc = Script::new(s.log.clone());
                    sc.warm = *warm;
                    sc.steps = vec![
                        cancel.clone(),
                        Step::Cancel { h: 0, op: op.clone(), polls: k2 },
                        Step::Check { h: 0 },
                        Step::CheckFresh,
                        exact(op.clone()),
                        Step::Check { h: 0 },
                        Step::CheckTree,
                    ];
                    run(ctx, &sc);
                }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------- C15

pub fn c15(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut states = shapes::reachable(ctx, if t { 24 } else { 17 });
    let reached = states.len();
    states.extend(two_and_three_levels());
    states.extend(shapes::far());
    states.push(shapes::build(&shapes::Shape::uniform(3, 4)));
    ctx.count("states", states.len() as u64);
    let open = |range: Range| Step::Open { h: 0, sub: None, range };
    // one mutation after any number of items
    let mut work: Vec<(usize, Range)> = vec![];
    for (i, s) in states.iter().enumerate() {
        let mut rs = vec![Range::all(), Range::all().rev()];
        if let Some(k) = s.spec.map.keys().nth(s.spec.map.len() / 2) {
            rs.push(Range { min: B::F(k.clone()), ..Range::all() });
            rs.push(Range { max: B::F(k.clone()), max_inc: false, ..Range::all() }.rev());
        }
        work.extend(rs.into_iter().map(|r| (i, r)));
    }
    ctx.par(&work, |(i, r)| {
        let s = &states[*i];
        let n = s.spec.range(r).len();
        let big = *i >= reached;
        let muts = if big {
            let m = shapes::mutations(&s.spec);
            let step = (m.len() / if t { 60 } else { 12 }).max(1);
            m.into_iter().step_by(step).collect()
        } else {
            shapes::mutations(&s.spec)
        };
        for taken in (0..=n).step_by(if big { n / 10 + 1 } else { 1 }) {
            for m in &muts {
                for warm in [false, true] {
                    if warm && big && !t {
                        continue;
                    }
                    let mut sc = Script::new(s.log.clone());
                    sc.warm = warm;
                    sc.stride = 7;
                    sc.bytes = true;
                    sc.steps = vec![open(r.clone()), Step::Take { s: 0, n: taken }, exact(m.clone()), Step::Finish { s: 0 }, Step::Check { h: 0 }, Step::CheckFresh];
                    run(ctx, &sc);
                }
            }
        }
    });
    ctx.note("one mutation after any number of items");
    // a mutation before every item
    ctx.par(&work, |(i, r)| {
        let s = &states[*i];
        let items = s.spec.range(r);
        let pick = |at: usize, d: isize| items.get((at as isize + d).max(0) as usize).map(|x| x.0.clone());
        for pattern in 0..8 {
            for warm in [false, true] {
                let mut sc = Script::new(s.log.clone());
                sc.warm = warm;
                sc.stride = 7;
                sc.bytes = true;
                sc.steps.push(open(r.clone()));
                sc.steps.push(open(r.clone().rev()));
                let mut spec = s.spec.clone();
                let push = |sc: &mut Script, spec: &mut Spec, op: Op| {
                    spec.apply(&op);
                    sc.steps.push(exact(op));
                };
                for at in 0..=items.len() {
                    match pattern {
                        // delete what was just yielded, what comes next, what comes after
                        0..=2 => {
                            if let Some(k) = pick(at, pattern - 1) {
                                push(&mut sc, &mut spec, Op::Del(k));
                            }
                        }
                        // replace the next one
                        3 => {
                            if let Some(k) = pick(at, 0) {
                                push(&mut sc, &mut spec, Op::Put(k, Some(b"replaced".to_vec())));
                            }
                        }
                        // insert right after the current position, several times
                        4 => {
                            if let Some(k) = pick(at, 0) {
                                for x in 0..3 {
                                    push(&mut sc, &mut spec, Op::Put([&k[..], &[b'm', x]].concat(), None));
                                }
                            }
                        }
                        // delete from the far end
                        5 => {
                            let k = spec.map.keys().next_back().cloned();
                            if let Some(k) = k {
                                push(&mut sc, &mut spec, Op::Del(k));
                            }
                        }
                        // everything goes at once
                        6 if at == items.len() / 2 => {
                            for k in spec.map.keys().cloned().collect::<Vec<_>>() {
                                push(&mut sc, &mut spec, Op::Del(k));
                            }
                        }
                        // the tree grows by two levels at once
                        7 if at == items.len() / 2 && s.spec.map.len() < 30 => {
                            for x in 0..40 {
                                push(&mut sc, &mut spec, Op::Put(shapes::nth_key(x * 131 % 8000), None));
                            }
                        }
                        _ => (),
                    }
                    sc.steps.push(Step::Take { s: 0, n: 1 });
                    sc.steps.push(Step::Take { s: 1, n: 1 });
                }
                sc.steps.extend([Step::Finish { s: 0 }, Step::Finish { s: 1 }, Step::Check { h: 0 }, Step::CheckFresh, Step::CheckTree]);
                run(ctx, &sc);
            }
        }
    });
    ctx.note("mutations before every item");
    // a mutation at every suspension point of the traversal
    let fine: Vec<(usize, Range, Op)> = states[..reached]
        .iter()
        .enumerate()
        .filter(|(_, s)| s.spec.map.len() <= if t { 11 } else { 10 })
        .flat_map(|(i, s)| shapes::mutations(&s.spec).into_iter().flat_map(move |m| [(i, Range::all(), m.clone()), (i, Range::all().rev(), m)]))
        .collect();
    ctx.par(&fine, |(i, r, m)| {
        let s = &states[*i];
        let (_, polls) = measure(&s.log, false, &Op::Traverse(r.clone()));
        let step = if t || s.spec.map.len() <= 3 { 1 } else { 5 };
        for k in (0..=polls).step_by(step) {
            let mut sc = Script::new(s.log.clone());
            sc.bytes = true;
            sc.steps = vec![open(r.clone()), Step::Poll { s: 0, polls: k }, exact(m.clone()), Step::Finish { s: 0 }, Step::Check { h: 0 }];
            run(ctx, &sc);
        }
    });
    // mutations that fail, are dropped, suspended, rejected or made elsewhere, after any number of items
    let ends: Vec<(&State, Op)> = states[..reached]
        .iter()
        .filter(|s| s.spec.map.len() <= if t { 11 } else { 10 })
        .flat_map(|s| {
            let mut m = shapes::mutations(&s.spec);
            if let Some(k) = s.spec.map.keys().next() {
                m.push(Op::PutCas(k.clone(), None, Cas::Reject));
                m.push(Op::PutCas(k.clone(), None, Cas::Panic));
                m.push(Op::DelCas(k.clone(), Cas::Panic));
            }
            m.into_iter().map(move |m| (s, m))
        })
        .collect();
    ctx.par(&ends, |(s, m)| {
        let (n, polls) = measure(&s.log, true, m);
        let r = if n % 2 == 0 { Range::all() } else { Range::all().rev() };
        let mut ways: Vec<Vec<Step>> = vec![vec![Step::Foreign { op: m.clone() }]];
        if matches!(on_parent(m), Op::PutCas(.., Cas::Reject | Cas::Panic) | Op::DelCas(_, Cas::Reject | Cas::Panic)) {
            ways = vec![vec![exact(m.clone())]];
        }
        let panics = matches!(m, Op::PutCas(.., Cas::Panic) | Op::DelCas(_, Cas::Panic));
        for f in 0..if panics { 0 } else { n + 3 } {
            ways.push(vec![Step::Do { h: 0, op: m.clone(), want: Want::ErrIfHit, plan: Plan { fail: vec![f], ..Plan::default() } }]);
        }
        for p in (1..=if panics { 0 } else { polls }).step_by(if t { 1 } else { 2 }) {
            ways.push(vec![Step::Cancel { h: 0, op: m.clone(), polls: p }]);
            ways.push(vec![Step::Cancel { h: 0, op: m.clone(), polls: p }, exact(m.clone())]);
            ways.push(vec![Step::Suspend { h: 0, op: m.clone(), polls: p }, Step::Take { s: 0, n: 2 }, Step::Resume]);
        }
        let len = s.spec.map.len();
        for (i, way) in ways.into_iter().enumerate() {
            for taken in (0..=len).filter(|x| t || len < 4 || (x + i) % 3 == 0) {
                let mut sc = Script::new(s.log.clone());
                sc.warm = i % 2 == 0;
                sc.stride = 7;
                sc.steps = vec![open(r.clone()), Step::Take { s: 0, n: taken }];
                sc.steps.extend(way.iter().cloned());
                sc.steps.extend([Step::Finish { s: 0 }, Step::Check { h: 0 }]);
                run(ctx, &sc);
            }
        }
    });
    ctx.note("mutations that fail, are dropped, suspended, rejected or made elsewhere");
    // a traversal of a sub
    let sub = Sub { prefix: b"d".to_vec(), sep: Some(vec![]) };
    ctx.par(&states[..reached], |s| {
        for r in [Range::all(), Range::all().rev()] {
            let n = s.spec.sub_range(&sub, &r).len();
            for taken in 0..=n {
                for m in shapes::mutations(&s.spec) {
                    let mut sc = Script::new(s.log.clone());
                    sc.stride = 7;
                    sc.steps = vec![
                        Step::Open { h: 0, sub: Some(sub.clone()), range: r.clone() },
                        Step::Take { s: 0, n: taken },
                        exact(m),
                        Step::Finish { s: 0 },
                        Step::Check { h: 0 },
                    ];
                    run(ctx, &sc);
                }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------- C24

pub fn c24(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut states = shapes::reachable(ctx, if t { 24 } else { 18 });
    let reached = states.len();
    states.extend(two_and_three_levels());
    states.extend(shapes::far());
    ctx.count("starting_stores", states.len() as u64);
    let mut work: Vec<(usize, Op)> = vec![];
    for (i, s) in states.iter().enumerate() {
        let mut rs = vec![Range::all(), Range::all().rev()];
        let bounds: Vec<K> = s.spec.map.keys().cloned().chain(shapes::gaps(&s.spec)).collect();
        let step = if i < reached && s.spec.map.len() <= 12 { 1 } else { bounds.len() / 6 + 1 };
        for b in bounds.iter().step_by(step) {
            for inc in [true, false] {
                for rev in [false, true] {
                    rs.push(Range { min: B::F(b.clone()), min_inc: inc, rev, ..Range::all() });
                    rs.push(Range { max: B::F(b.clone()), max_inc: inc, rev, ..Range::all() });
                }
            }
        }
        work.extend(rs.into_iter().map(|r| (i, Op::Traverse(r))));
        let sub = Sub { prefix: b"d".to_vec(), sep: Some(vec![]) };
        work.push((i, Op::In(sub.clone(), Box::new(Op::Traverse(Range::all())))));
        work.push((i, Op::In(sub, Box::new(Op::Traverse(Range::all().rev())))));
    }
    ctx.par(&work, |(i, op)| {
        let s = &states[*i];
        let (n, _) = measure(&s.log, false, op);
        ctx.count("fault_points", n);
        let go = |fail: Vec<u64>, pend: bool| {
            let mut sc = Script::new(s.log.clone());
            sc.steps = vec![
                Step::Do { h: 0, op: op.clone(), want: Want::ErrIfHit, plan: Plan { fail, pend_all: pend, ..Plan::default() } },
                exact(op.clone()),
            ];
            run(ctx, &sc);
        };
        // one failing read, two, all from some point on, all but one; answered at once or late
        for f in 0..n {
            go(vec![f], false);
            go(vec![f], true);
            if n <= if t { 24 } else { 14 } {
                for g in f + 1..n + 3 {
                    go(vec![f, g], false);
                    if t && n <= 14 {
                        for h in g + 1..n + 3 {
                            go(vec![f, g, h], false);
                        }
                    }
                }
            }
            go((f..3 * n + 9).collect(), false);
            go((f..3 * n + 9).step_by(2).collect(), false);
        }
        // blocks that are not there: every single one, every pair, and all that follow
        let seqs: Vec<u64> = (s.log.base.max(1)..s.log.len()).collect();
        let step = seqs.len() / 24 + 1;
        for (x, a) in seqs.iter().enumerate().step_by(step) {
            let mut sets = vec![vec![*a], seqs[x..].to_vec(), seqs[..=x].to_vec()];
            if seqs.len() <= if t { 16 } else { 10 } {
                sets.extend(seqs[x + 1..].iter().map(|b| vec![*a, *b]));
            }
            for blocks in sets {
                let mut sc = Script::new(s.log.clone());
                sc.steps = vec![
                    Step::Missing { blocks: blocks.clone(), wait: false },
                    Step::Do { h: 0, op: op.clone(), want: Want::ErrIfHit, plan: Plan::default() },
                    Step::Missing { blocks: vec![], wait: false },
                    exact(op.clone()),
                ];
                run(ctx, &sc);
            }
        }
    });
    crate::c_dmg::traversals(ctx, &states[..states.len() - shapes::far().len()]);
}
