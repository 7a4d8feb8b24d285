//! C08, C09, C10: sub-databases and conditional operations.
use crate::ops::*;
use crate::report::Ctx;
use crate::script::{self, Plan, Script, Step, Want};
use crate::shapes::{self, State};
use hypercore::mc::Log;

fn run(ctx: &Ctx, s: &Script) {
    ctx.case("script", s, script::run);
}

fn exact(op: Op) -> Step {
    Step::Do { h: 0, op, want: Want::Exact, plan: Plan::default() }
}

fn subs(thorough: bool) -> Vec<Sub> {
    let mut v = vec![];
    let prefixes: &[&[u8]] = if thorough { &[b"", b"a", b"a\0", b"\0", b"\xff", b"a\xff", b"ab"] } else { &[b"", b"a", b"a\0", b"\xff"] };
    let seps: &[Option<&[u8]>] =
        if thorough { &[None, Some(b""), Some(b"\0\0"), Some(b"\xff"), Some(b"b"), Some(b"sep")] } else { &[None, Some(b""), Some(b"\xff"), Some(b"ab")] };
    for p in prefixes {
        for s in seps {
            v.push(Sub { prefix: p.to_vec(), sep: s.map(|s| s.to_vec()) });
        }
    }
    v
}

const KEYS: &[&[u8]] = &[b"", b"\0", b"a", b"\xff"];

fn sub_ops(sub: &Sub, keys: &[&[u8]], all: bool) -> Vec<Op> {
    let mut v = vec![];
    for k in keys {
        let k = k.to_vec();
        let mut o = vec![Op::Put(k.clone(), Some(b"sub".to_vec())), Op::Del(k.clone()), Op::Get(k.clone())];
        if all {
            o.extend([
                Op::Put(k.clone(), None),
                Op::Put(k.clone(), Some(vec![])),
                Op::PutCas(k.clone(), None, Cas::Accept),
                Op::PutCas(k.clone(), None, Cas::Reject),
                Op::PutCas(k.clone(), Some(b"c".to_vec()), Cas::IfAbsent),
                Op::PutCas(k.clone(), Some(b"c".to_vec()), Cas::IfPresent),
                Op::DelCas(k.clone(), Cas::Accept),
                Op::DelCas(k.clone(), Cas::Reject),
            ]);
        }
        v.extend(o.into_iter().map(|o| Op::In(sub.clone(), Box::new(o))));
    }
    v
}

/// Subs whose prefixes and separators are made of each other, each with keys made of both
fn tangled(thorough: bool) -> Vec<(Sub, Vec<K>)> {
    let long = vec![b'L'; 300];
    let mut seps: Vec<Option<K>> = vec![None, Some(b"::".to_vec()), Some(b"aa".to_vec()), Some(b"\0\0".to_vec()), Some(b"ab".to_vec()), Some(long.clone())];
    if thorough {
        seps.extend([Some(b"".to_vec()), Some(b"aba".to_vec()), Some(b"/".to_vec()), Some(b"\xff\xff".to_vec()), Some(" \t\n".into()), Some("\u{e9}".into())]);
    }
    let mut out = vec![];
    for sep in seps {
        let p = &b"p"[..];
        let s = sep.clone().unwrap_or_else(|| vec![0]);
        let s = &s[..];
        let first = &s[..1.min(s.len())];
        let mut prefixes: Vec<K> = vec![vec![], s.to_vec(), [p, s].concat(), [s, p].concat(), [p, s, p].concat(), [p, first].concat(), [s, s].concat(), b" p ".to_vec()];
        if thorough {
            prefixes.extend([long.clone(), [p, s, s].concat(), [first, p].concat(), "\u{e9}".into(), b"P".to_vec()]);
        }
        prefixes.sort();
        prefixes.dedup();
        for prefix in prefixes {
            let q = &prefix[..];
            let mut keys: Vec<K> = vec![
                vec![],
                s.to_vec(),
                [s, b"k"].concat(),
                [b"k", s].concat(),
                [s, s].concat(),
                [s, b"k", s].concat(),
                q.to_vec(),
                [q, s].concat(),
                [q, s, b"k"].concat(),
                [s, q].concat(),
                first.to_vec(),
                [first, b"k"].concat(),
                b"k".to_vec(),
                b" k ".to_vec(),
                b"K".to_vec(),
                long.clone(),
            ];
            keys.sort();
            keys.dedup();
            out.push((Sub { prefix: prefix.clone(), sep: sep.clone() }, keys));
        }
    }
    out
}

/// the parent keys that a sub's keys could be taken for
fn confusable(sub: &Sub, keys: &[K]) -> Vec<K> {
    let full = sub.full();
    let s = &full[sub.prefix.len()..];
    let mut v: Vec<K> = keys.to_vec();
    for k in keys {
        v.push([&full[..], k].concat());
        v.push([&sub.prefix[..], k].concat());
        v.push([s, k].concat());
        v.push([&full[..], s, k].concat());
    }
    v.sort();
    v.dedup();
    v
}

pub fn c08(ctx: &Ctx) {
    let t = ctx.thorough;
    let subs = subs(t);
    // everything every sub can name, as the parent sees it
    let mut universe: Vec<K> = subs.iter().flat_map(|s| KEYS.iter().map(move |k| [&s.full()[..], k].concat())).collect();
    universe.sort();
    universe.dedup();
    ctx.note(format!("{} subs naming {} different parent keys", subs.len(), universe.len()));
    let mk = |log: &Log, ops: &[Op]| {
        let mut s = Script::new(log.clone());
        s.bytes = true;
        s.len = true;
        s.probes = universe.clone();
        s.steps = ops.iter().cloned().map(exact).collect();
        s
    };
    // stores: never written, each parent key alone, all of them, and the neighbours of every key
    let mut logs = vec![shapes::empty(), shapes::header_only()];
    let mut all = shapes::header_only();
    for (i, k) in universe.iter().enumerate() {
        logs.push(shapes::model_step(&shapes::header_only(), &Op::Put(k.clone(), shapes::value(i as u64))).unwrap());
        all = shapes::model_step(&all, &Op::Put(k.clone(), shapes::value(i as u64))).unwrap();
        if i % 7 == 6 {
            logs.push(all.clone());
        }
    }
    logs.push(all.clone());
    ctx.count("states", logs.len() as u64);
    // one operation of every sub on every store, then everything compared through the parent
    ctx.par(&logs, |log| {
        for s in &subs {
            for op in sub_ops(s, KEYS, true) {
                let mut sc = mk(log, std::slice::from_ref(&op));
                sc.steps.push(Step::Check { h: 0 });
                run(ctx, &sc);
            }
        }
    });
    // two operations: by one sub or the parent, then seen by another sub or the parent
    let mut names: Vec<Option<&Sub>> = vec![None];
    names.extend(subs.iter().map(Some));
    let write = |n: Option<&Sub>, t: bool| -> Vec<Op> {
        match n {
            None => universe.iter().flat_map(|k| [Op::Put(k.clone(), Some(b"parent".to_vec())), Op::Del(k.clone())]).collect(),
            Some(s) => sub_ops(s, KEYS, t),
        }
    };
    let look = |n: Option<&Sub>| -> Vec<Op> {
        match n {
            None => universe.iter().map(|k| Op::Get(k.clone())).collect(),
            Some(s) => sub_ops(s, KEYS, false),
        }
    };
    ctx.par(&names, |a| {
        for log in [shapes::empty(), all.clone()] {
            for op in write(*a, t) {
                for b in &names {
                    // all observations by b in one case, then its mutations in one case each
                    let l = look(*b);
                    let reads: Vec<Op> = l.iter().filter(|o| !o.mutates()).cloned().collect();
                    run(ctx, &mk(&log, &[&[op.clone()], &reads[..]].concat()));
                    for o in l.iter().filter(|o| o.mutates()) {
                        if log.is_empty() || t {
                            let mut sc = mk(&log, &[op.clone(), o.clone()]);
                            sc.steps.push(Step::Check { h: 0 });
                            run(ctx, &sc);
                        }
                    }
                }
            }
        }
    });
    // prefixes, separators and keys made of each other, in stores with none, every second and all of the keys they
    // could be taken for
    ctx.par(&tangled(t), |(sub, keys)| {
        let around = confusable(sub, keys);
        let refs: Vec<&[u8]> = keys.iter().map(|k| &k[..]).collect();
        for which in 0..4 {
            let mut log = shapes::header_only();
            for (i, k) in around.iter().enumerate() {
                if which == 3 || which > 0 && i % 2 == which - 1 {
                    log = shapes::model_step(&log, &Op::Put(k.clone(), shapes::value(i as u64))).unwrap();
                }
            }
            for op in sub_ops(sub, &refs, true) {
                let mut sc = mk(&log, &[op]);
                sc.probes = around.clone();
                sc.steps.push(Step::Check { h: 0 });
                run(ctx, &sc);
            }
        }
    });
    ctx.note("prefixes, separators and keys made of each other");
    // filling and emptying two subs and the parent alternately, so that their keys share nodes
    let pairs: Vec<(usize, usize)> = (0..subs.len()).flat_map(|a| (0..subs.len()).map(move |b| (a, b))).collect();
    ctx.par(&pairs, |&(a, b)| {
        let mut ops = vec![];
        let key = |i: usize| vec![b'a' + (i * 7 % 26) as u8, (i * 37 % 256) as u8];
        for i in 0..12 {
            ops.push(Op::In(subs[a].clone(), Box::new(Op::Put(key(i), shapes::value(i as u64)))));
            ops.push(Op::In(subs[b].clone(), Box::new(Op::PutCas(key(i + 3), shapes::value(i as u64), Cas::IfAbsent))));
            ops.push(Op::Put(key(i), None));
        }
        for i in 0..12 {
            ops.push(Op::In(subs[a].clone(), Box::new(Op::Get(key(i)))));
            ops.push(Op::In(subs[a].clone(), Box::new(Op::Del(key(i)))));
            ops.push(Op::In(subs[b].clone(), Box::new(Op::DelCas(key(i + 1), Cas::Accept))));
        }
        for keep in [Keep::No, Keep::One, Keep::Two] {
            let mut sc = mk(&shapes::empty(), &ops);
            sc.keep = keep;
            sc.steps.extend([Step::Check { h: 0 }, Step::CheckFresh]);
            run(ctx, &sc);
        }
    });
    // sequences of operations of the parent and of subs that were opened before the first of them, one or two of each
    let two = |p: &[u8], s: Option<&[u8]>| Sub { prefix: p.to_vec(), sep: s.map(|s| s.to_vec()) };
    let who: Vec<Option<Sub>> = vec![None, Some(two(b"a", None)), Some(two(b"", Some(b"")))];
    let mut ops = vec![];
    for w in &who {
        for k in [&b"a\0"[..], b"a\0b"] {
            let key = match w {
                None => k.to_vec(),
                Some(s) => match k.strip_prefix(&s.full()[..]) {
                    Some(k) => k.to_vec(),
                    None => continue,
                },
            };
            for op in [
                Op::Put(key.clone(), Some(b"v".to_vec())),
                Op::Del(key.clone()),
                Op::Get(key.clone()),
                Op::PutCas(key.clone(), None, Cas::IfAbsent),
                Op::DelCas(key.clone(), Cas::Reject),
            ] {
                ops.push(match w {
                    None => op,
                    Some(s) => Op::In(s.clone(), Box::new(op)),
                });
            }
        }
    }
    let mut starts = vec![shapes::empty(), shapes::build(&shapes::Shape::Leaf(8)).log];
    let both = [Op::Put(b"a\0".to_vec(), None), Op::Put(b"a\0b".to_vec(), Some(vec![]))];
    starts.push(both.iter().fold(shapes::header_only(), |l, o| shapes::model_step(&l, o).unwrap()));
    let firsts: Vec<(&Log, &Op)> = starts.iter().flat_map(|l| ops.iter().map(move |o| (l, o))).collect();
    ctx.par(&firsts, |(log, a)| {
        let mut go = |seq: &[Op]| {
            for keep in [Keep::One, Keep::Two] {
                let mut sc = mk(log, seq);
                sc.probes = both.iter().map(|o| if let Op::Put(k, _) = o { k.clone() } else { unreachable!() }).collect();
                sc.keep = keep;
                sc.steps.push(Step::Check { h: 0 });
                run(ctx, &sc);
            }
        };
        for b in &ops {
            for c in &ops {
                if t {
                    for d in &ops {
                        go(&[(*a).clone(), b.clone(), c.clone(), d.clone()]);
                    }
                } else {
                    go(&[(*a).clone(), b.clone(), c.clone()]);
                }
            }
        }
    });
    ctx.note("sequences of operations on subs that are opened once and used again");
}

// ---------------------------------------------------------------------------------------------------------------- C09

pub fn c09(ctx: &Ctx) {
    let t = ctx.thorough;
    let prefixes: &[&[u8]] = &[b"", b"a", b"p:", b"\0", b"\xff", b"a\xff", b"\xff\xff", b"a\0"];
    let seps: &[Option<&[u8]>] = &[None, Some(b""), Some(b"\0"), Some(b"\xff"), Some(b"\xff\xff"), Some(b"b"), Some(b":\xff")];
    let mut subs = vec![];
    for p in prefixes {
        for s in seps {
            subs.push(Sub { prefix: p.to_vec(), sep: s.map(|s| s.to_vec()) });
        }
    }
    ctx.count("subs", subs.len() as u64);
    let logs = std::sync::atomic::AtomicU64::new(0);
    ctx.par(&subs, |sub| {
        let full = sub.full();
        // keys of the sub and everything close to them
        let mut keys: Vec<K> = vec![full.clone()];
        for rest in [&b"\0"[..], b"a", b"a\0", b"\xff", b"\xff\xff"] {
            keys.push([&full[..], rest].concat());
        }
        let mut near: Vec<K> = vec![sub.prefix.clone(), vec![], vec![0], vec![0xff; 5]];
        for cut in 0..full.len() {
            near.push(full[..cut].to_vec());
            for d in [1, 255u8] {
                let mut k = full[..cut + 1].to_vec();
                k[cut] = k[cut].wrapping_add(d);
                near.push(k.clone());
                k.push(0);
                near.push(k);
            }
        }
        near.push([&sub.prefix[..], b"!"].concat());
        near.push([&sub.prefix[..], b"zz"].concat());
        near.push([&sub.prefix[..], b"\xff\xff\xff"].concat());
        near.sort();
        near.dedup();
        near.retain(|k| !keys.contains(k));
        let mut ranges = vec![];
        let bs = [B::NegInf, B::PosInf, B::F(vec![]), B::F(vec![0]), B::F(b"a".to_vec()), B::F(b"b".to_vec()), B::F(vec![0xff]), B::F(vec![0xff, 0xff, 0xff])];
        for min in &bs {
            for max in &bs {
                for (min_inc, max_inc) in [(true, true), (true, false), (false, true), (false, false)] {
                    for rev in [false, true] {
                        ranges.push(Range { min: min.clone(), min_inc, max: max.clone(), max_inc, rev });
                    }
                }
            }
        }
        let basic = [Range::all(), Range::all().rev()];
        let mut stores: Vec<(Vec<K>, bool)> = vec![];
        let all: Vec<K> = keys.iter().chain(&near).cloned().collect();
        // everything; only the sub; only the rest; each pair; all subsets of the sub's keys with all of the rest
        stores.push((all.clone(), true));
        stores.push((keys.clone(), true));
        stores.push((near.clone(), true));
        for i in 0..all.len() {
            stores.push((vec![all[i].clone()], true));
            for j in 0..i {
                stores.push((vec![all[i].clone(), all[j].clone()], t));
                if t {
                    for k in 0..j {
                        stores.push((vec![all[i].clone(), all[j].clone(), all[k].clone()], false));
                    }
                }
            }
        }
        for bits in 0..1u32 << keys.len() {
            let some: Vec<K> = (0..keys.len()).filter(|i| bits & 1 << i != 0).map(|i| keys[i].clone()).collect();
            stores.push((some.iter().chain(&near).cloned().collect(), t));
        }
        logs.fetch_add(stores.len() as u64, std::sync::atomic::Ordering::Relaxed);
        for (keys, every) in stores {
            if ctx.stopped() {
                return;
            }
            let mut log = shapes::header_only();
            for (i, k) in keys.iter().enumerate() {
                log = shapes::model_step(&log, &Op::Put(k.clone(), shapes::value(i as u64))).unwrap();
            }
            let mut s = Script::new(log);
            for r in if every { &ranges[..] } else { &basic[..] } {
                s.steps.push(exact(Op::In(sub.clone(), Box::new(Op::Traverse(r.clone())))));
            }
            run(ctx, &s);
        }
        // never written, written and emptied
        for ops in [vec![], vec![Op::Put(full.clone(), None), Op::Del(full.clone())]] {
            let mut s = Script::new(shapes::empty());
            s.steps = ops.into_iter().map(exact).collect();
            s.steps.push(exact(Op::In(sub.clone(), Box::new(Op::Traverse(Range::all())))));
            s.steps.push(exact(Op::In(sub.clone(), Box::new(Op::Traverse(Range::all().rev())))));
            run(ctx, &s);
        }
    });
    // prefixes, separators and keys made of each other
    ctx.par(&tangled(t), |(sub, keys)| {
        let around = confusable(sub, keys);
        for which in 0..3 {
            let mut log = shapes::header_only();
            for (i, k) in around.iter().enumerate() {
                if which == 2 || i % 2 == which {
                    log = shapes::model_step(&log, &Op::Put(k.clone(), shapes::value(i as u64))).unwrap();
                }
            }
            logs.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let mut s = Script::new(log);
            let mut bs: Vec<B> = keys.iter().cloned().map(B::F).collect();
            bs.extend([B::NegInf, B::PosInf]);
            for min in &bs {
                for max in &bs {
                    for (n, (min_inc, max_inc)) in [(true, true), (true, false), (false, true), (false, false)].into_iter().enumerate() {
                        for rev in [false, true] {
                            if t || (n + which) % 2 == rev as usize {
                                let r = Range { min: min.clone(), min_inc, max: max.clone(), max_inc, rev };
                                s.steps.push(exact(Op::In(sub.clone(), Box::new(Op::Traverse(r)))));
                            }
                        }
                    }
                }
            }
            run(ctx, &s);
        }
    });
    ctx.note("prefixes, separators and keys made of each other");
    ctx.count("states", logs.into_inner());
    // two subs in one store, all pairs, several levels deep
    let pairs: Vec<(usize, usize)> = (0..subs.len()).flat_map(|a| (0..subs.len()).map(move |b| (a, b))).collect();
    ctx.par(&pairs, |&(a, b)| {
        let mut s = Script::new(shapes::empty());
        for i in 0..14u8 {
            s.steps.push(exact(Op::In(subs[a].clone(), Box::new(Op::Put(vec![i * 19], Some(vec![i]))))));
            s.steps.push(exact(Op::In(subs[b].clone(), Box::new(Op::Put(vec![i * 17, i], None)))));
            s.steps.push(exact(Op::Put(vec![i * 18], None)));
        }
        for x in [a, b] {
            for r in [
                Range::all(),
                Range { min: B::F(vec![57]), min_inc: false, ..Range::all() },
                Range { max: B::F(vec![152]), max_inc: false, ..Range::all() },
            ] {
                s.steps.push(exact(Op::In(subs[x].clone(), Box::new(Op::Traverse(r.clone())))));
                s.steps.push(exact(Op::In(subs[x].clone(), Box::new(Op::Traverse(r.rev())))));
            }
        }
        for keep in [Keep::No, Keep::One, Keep::Two] {
            s.keep = keep;
            run(ctx, &s);
        }
    });
    // subs that were opened before the first operation, traversed before, between and after changes
    ctx.par(&subs, |sub| {
        let mut writes = vec![];
        for k in [&b"\x01"[..], b"m", b"\xfe"] {
            let full = [&sub.full()[..], k].concat();
            writes.push(Op::Put(full.clone(), Some(vec![1])));
            writes.push(Op::Del(full));
            writes.push(Op::In(sub.clone(), Box::new(Op::Put(k.to_vec(), None))));
            writes.push(Op::In(sub.clone(), Box::new(Op::Del(k.to_vec()))));
        }
        let ranges = [
            Range::all(),
            Range::all().rev(),
            Range { min: B::F(b"m".to_vec()), min_inc: false, ..Range::all() },
            Range { max: B::F(b"m".to_vec()), ..Range::all() }.rev(),
        ];
        let look = |s: &mut Script| s.steps.extend(ranges.iter().map(|r| exact(Op::In(sub.clone(), Box::new(Op::Traverse(r.clone()))))));
        let full = (0..8u8).fold(shapes::header_only(), |l, i| shapes::model_step(&l, &Op::Put([&sub.full()[..], &[i * 31]].concat(), None)).unwrap());
        for log in [shapes::header_only(), full] {
            for a in &writes {
                for b in &writes {
                    for keep in [Keep::One, Keep::Two] {
                        let mut s = Script::new(log.clone());
                        s.keep = keep;
                        look(&mut s);
                        s.steps.push(exact(a.clone()));
                        look(&mut s);
                        s.steps.push(exact(b.clone()));
                        look(&mut s);
                        run(ctx, &s);
                    }
                }
            }
        }
    });
    ctx.note("subs that are opened once and traversed between changes");
}

// ---------------------------------------------------------------------------------------------------------------- C10

fn cas_ops(spec: &Spec) -> Vec<Op> {
    let mut v = vec![];
    let kinds = |seq: Option<u64>| {
        let mut c = vec![Cas::Accept, Cas::Reject, Cas::IfAbsent, Cas::IfPresent, Cas::IfSeq(spec.len), Cas::Panic];
        c.extend(seq.map(Cas::IfSeq));
        c
    };
    let n = spec.len;
    for k in shapes::gaps(spec) {
        for c in kinds(None) {
            v.push(Op::PutCas(k.clone(), shapes::value(n), c));
        }
        for c in [Cas::Accept, Cas::Reject, Cas::Panic] {
            v.push(Op::DelCas(k.clone(), c));
        }
    }
    for (k, (seq, _)) in &spec.map {
        for c in kinds(Some(*seq)) {
            v.push(Op::PutCas(k.clone(), shapes::value(n + 1), c));
        }
        for c in [Cas::Accept, Cas::Reject, Cas::IfSeq(*seq), Cas::IfSeq(seq + 1), Cas::Panic] {
            v.push(Op::DelCas(k.clone(), c));
        }
    }
    v
}

pub fn c10(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut states = shapes::reachable(ctx, if t { 26 } else { 21 });
    states.push(shapes::state(shapes::header_only()));
    states.extend(shapes::far());
    ctx.count("states", states.len() as u64);
    let mk = |log: &Log, ops: Vec<Op>| {
        let mut s = Script::new(log.clone());
        s.bytes = true;
        s.len = true;
        s.steps = ops.into_iter().map(exact).collect();
        s.steps.extend([Step::Check { h: 0 }, Step::CheckFresh]);
        s
    };
    ctx.par(&states, |s| {
        for op in cas_ops(&s.spec) {
            for warm in [false, true] {
                let mut sc = mk(&s.log, vec![op.clone()]);
                sc.warm = warm;
                run(ctx, &sc);
            }
        }
    });
    // through a sub: the predicate sees the parent's key
    let sub = Sub { prefix: b"d".to_vec(), sep: Some(b"".to_vec()) };
    ctx.par(&states, |s| {
        if s.spec.map.len() > 10 {
            return;
        }
        for op in cas_ops(&s.spec) {
            let op = match op {
                Op::PutCas(k, v, c) => Op::PutCas(k, v, c),
                Op::DelCas(k, c) => Op::DelCas(k, c),
                _ => unreachable!(),
            };
            run(ctx, &mk(&s.log, vec![Op::In(sub.clone(), Box::new(op))]));
        }
        for k in s.spec.map.keys().filter(|k| k.starts_with(b"d")) {
            for c in [Cas::Accept, Cas::Reject, Cas::IfPresent, Cas::Panic] {
                run(ctx, &mk(&s.log, vec![Op::In(sub.clone(), Box::new(Op::PutCas(k[1..].to_vec(), None, c)))]));
                run(ctx, &mk(&s.log, vec![Op::In(sub.clone(), Box::new(Op::DelCas(k[1..].to_vec(), c)))]));
            }
        }
    });
    // a conditional operation, then any other operation on the same handle
    let small: Vec<&State> = states.iter().filter(|s| s.spec.map.len() <= if t { 11 } else { 10 }).collect();
    ctx.par(&small, |s| {
        for op in cas_ops(&s.spec) {
            let mut after = s.spec.clone();
            after.apply(&op);
            let mut follow = shapes::mutations(&after);
            if s.spec.map.len() <= if t { 6 } else { 4 } {
                follow.extend(cas_ops(&after));
            }
            for f in follow {
                let mut sc = mk(&s.log, vec![op.clone(), f]);
                run(ctx, &sc);
                // the same through a sub that has all keys
                if s.spec.map.len() <= 9 {
                    sc.keep = Keep::Through;
                    run(ctx, &sc);
                }
            }
        }
    });
    // larger trees
    let mut large = crate::c_fault::two_and_three_levels();
    if t {
        large.push(shapes::build(&shapes::Shape::uniform(3, 5)));
    }
    ctx.par(&large, |s| {
        for op in cas_ops(&s.spec) {
            let mut sc = mk(&s.log, vec![op.clone()]);
            sc.stride = 7;
            run(ctx, &sc);
        }
    });
    // awkward keys
    let keys: Vec<K> = [&b""[..], b"\0", b"a", b"\xff"].iter().map(|k| k.to_vec()).collect();
    let mut ops = vec![];
    for k in &keys {
        ops.push(Op::Put(k.clone(), None));
        ops.push(Op::Del(k.clone()));
        for c in [Cas::Accept, Cas::Reject, Cas::IfAbsent, Cas::IfPresent] {
            ops.push(Op::PutCas(k.clone(), Some(vec![]), c));
            ops.push(Op::DelCas(k.clone(), c));
        }
    }
    ctx.par(&ops, |a| {
        for b in &ops {
            for c in &ops {
                run(ctx, &mk(&shapes::empty(), vec![a.clone(), b.clone(), c.clone()]));
            }
        }
    });
}
