//! C01, C02, C03, C19: sequences of operations from every tree shape, compared with the reference.
use crate::ops::*;
use crate::report::Ctx;
use crate::script::{Script, Step};
use crate::shapes::{self, State};
use crate::{raw, script};
use hypercore::mc::Log;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Results,
    Tree,
    Bytes,
    Len,
}

fn base(mode: Mode, log: Log) -> Script {
    let mut s = Script::new(log);
    s.results = mode == Mode::Results;
    s.bytes = mode == Mode::Bytes;
    s.len = mode == Mode::Len;
    s.panics_elsewhere = mode == Mode::Tree;
    s
}

/// Append an operation and the checks due after it
fn push(mode: Mode, s: &mut Script, op: Op, last: bool) {
    *s = std::mem::replace(s, Script::new(Log::default())).op(op);
    match mode {
        Mode::Results if last => s.steps.extend([Step::Check { h: 0 }, Step::CheckFresh]),
        Mode::Tree => s.steps.push(Step::CheckTree),
        _ => (),
    }
}

fn sequence(mode: Mode, log: &Log, warm: bool, ops: &[Op], probes: &[K]) -> Script {
    let mut s = base(mode, log.clone());
    s.warm = warm;
    s.probes = probes.to_vec();
    for (i, op) in ops.iter().enumerate() {
        push(mode, &mut s, op.clone(), i + 1 == ops.len());
    }
    s
}

fn run(ctx: &Ctx, s: &Script) {
    if ctx.prop == "C29" {
        crate::c_watch::go(ctx, crate::c_watch::ALL, s.clone())
    } else {
        ctx.case("script", s, script::run);
    }
}

/// The parts that C29 repeats while watching
pub fn watched(ctx: &Ctx) {
    let (t, mode) = (ctx.thorough, Mode::Results);
    awkward(ctx, mode, if t { 3 } else { 2 });
    awkward_splits(ctx, mode);
    long_logs(ctx, mode);
    three_levels(ctx, mode);
    marches(ctx, mode, if t { 280 } else { 120 });
    endurance(ctx, mode, if t { 1000 } else { 400 }, 170);
    big(ctx, mode, &[1 << 16]);
}

/// Operations that must not change anything
fn inert(spec: &Spec) -> Vec<Op> {
    let absent = shapes::between(spec.map.keys().next_back().map(|k| &k[..]), None);
    let mut v = vec![
        Op::Version,
        Op::Get(absent.clone()),
        Op::Del(absent.clone()),
        Op::DelCas(absent.clone(), Cas::Accept),
        Op::DelCas(absent.clone(), Cas::Reject),
        Op::PutCas(absent, Some(b"v".to_vec()), Cas::Reject),
        Op::Traverse(Range::all()),
        Op::Traverse(Range::all().rev()),
    ];
    for k in spec.map.keys() {
        v.push(Op::Get(k.clone()));
        v.push(Op::PutCas(k.clone(), None, Cas::Reject));
        v.push(Op::DelCas(k.clone(), Cas::Reject));
    }
    if spec.len > 0 {
        v.push(Op::Header(None));
    }
    v
}

/// One mutation from every shape
fn from_every_shape(ctx: &Ctx, mode: Mode, states: &[State]) {
    ctx.count("states", states.len() as u64);
    ctx.par(states, |s| {
        let gaps = shapes::gaps(&s.spec);
        let mut ops = shapes::mutations(&s.spec);
        if mode == Mode::Len {
            ops.extend(inert(&s.spec));
        }
        for op in &ops {
            let probes: Vec<K> = gaps.iter().filter(|k| !matches!(op, Op::Put(x, _) if x == *k)).cloned().collect();
            for warm in [false, true] {
                run(ctx, &sequence(mode, &s.log, warm, std::slice::from_ref(op), &probes));
                if mode == Mode::Bytes {
                    break;
                }
            }
        }
    });
}

/// All sequences of `depth` operations on one handle from a shape
fn sequences(ctx: &Ctx, mode: Mode, s: &State, depth: usize, extra: &dyn Fn(&Spec) -> Vec<Op>) {
    fn rec(ctx: &Ctx, mode: Mode, log: &Log, spec: &Spec, ops: &mut Vec<Op>, depth: usize, extra: &dyn Fn(&Spec) -> Vec<Op>) {
        if ctx.stopped() {
            return;
        }
        if depth == 0 {
            run(ctx, &sequence(mode, log, false, ops, &[]));
            return;
        }
        let mut all = shapes::mutations(spec);
        all.extend(extra(spec));
        for op in all {
            let mut next = spec.clone();
            next.apply(&op);
            ops.push(op);
            rec(ctx, mode, log, &next, ops, depth - 1, extra);
            ops.pop();
        }
    }
    rec(ctx, mode, &s.log, &s.spec, &mut vec![], depth, extra)
}

/// Every local situation of a three-level tree
fn three_levels(ctx: &Ctx, mode: Mode) {
    let configs = if ctx.thorough {
        shapes::local_configs(&[4, 5, 6, 7, 8], &[4, 5, 8], &[1, 2, 4, 8])
    } else {
        shapes::local_configs(&[4, 5, 8], &[4, 5, 8], &[1, 2])
    };
    ctx.note(format!("three-level situations: {}", configs.len()));
    ctx.count("states", configs.len() as u64);
    ctx.par(&configs, |(shape, before)| {
        let s = shapes::build(shape);
        let keys: Vec<&K> = s.spec.map.keys().collect();
        let n = shapes_leaf_len(shape, *before);
        let mut ops = vec![];
        let len = s.spec.len;
        // into the target leaf: at its start, in the middle, at its end
        for i in [0, n / 2, n] {
            let lo = (before + i).checked_sub(1).map(|j| &keys[j][..]);
            let hi = keys.get(before + i).map(|k| &k[..]);
            ops.push(Op::Put(shapes::between(lo, hi), shapes::value(len)));
        }
        // its first and last key, a middle one, and the separators around it
        let mut dels = vec![*before, before + n / 2, before + n - 1];
        dels.extend(before.checked_sub(1));
        dels.push(before + n);
        dels.extend(internal_positions(shape, *before));
        dels.sort();
        dels.dedup();
        for i in dels {
            if let Some(k) = keys.get(i) {
                ops.push(Op::Del(k.to_vec()));
            }
        }
        ops.push(Op::Put(keys[*before].clone(), shapes::value(len)));
        for op in ops {
            let (Op::Put(k, _) | Op::Del(k)) = &op else { unreachable!() };
            let k = k.clone();
            let mut sc = sequence(mode, &s.log, false, &[op], &[k]);
            sc.stride = 6;
            run(ctx, &sc);
        }
    });
}

fn shapes_leaf_len(s: &shapes::Shape, before: usize) -> usize {
    use shapes::Shape::*;
    match s {
        Leaf(n) => {
            assert_eq!(before, 0);
            *n
        }
        Node(c) => {
            let mut at = 0;
            for x in c {
                let n = x.n_keys();
                if before < at + n {
                    return shapes_leaf_len(x, before - at);
                }
                at += n + 1;
            }
            unreachable!()
        }
    }
}

/// positions (in key order) of the keys of the root and of the second-level node containing key `before`
fn internal_positions(s: &shapes::Shape, before: usize) -> Vec<usize> {
    use shapes::Shape::*;
    let Node(c) = s else { return vec![] };
    let (mut out, mut at) = (vec![], 0);
    for (i, x) in c.iter().enumerate() {
        let n = x.n_keys();
        if before >= at && before < at + n {
            out.extend(internal_positions(x, before - at).into_iter().map(|p| p + at));
        }
        at += n;
        if i + 1 < c.len() {
            out.push(at);
        }
        at += 1;
    }
    out
}

/// Orders of the numbers below `n`
fn orders(n: usize) -> Vec<(&'static str, Vec<usize>)> {
    let bits = usize::BITS - (n - 1).leading_zeros();
    let mut rev: Vec<usize> = (0..1usize << bits).map(|i| i.reverse_bits() >> (usize::BITS - bits)).collect();
    rev.retain(|i| *i < n);
    let out_in = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect::<Vec<_>>();
    let mut in_out = out_in.clone();
    in_out.reverse();
    vec![
        ("ascending", (0..n).collect()),
        ("descending", (0..n).rev().collect()),
        ("bit reversal", rev),
        ("outside in", out_in),
        ("inside out", in_out),
    ]
}

/// Long histories on one handle: n insertions and n deletions, in all pairs of orders
fn marches(ctx: &Ctx, mode: Mode, n: usize) {
    let orders = orders(n);
    let pairs: Vec<(usize, usize)> = (0..orders.len()).flat_map(|a| (0..orders.len()).map(move |b| (a, b))).collect();
    ctx.par(&pairs, |&(a, b)| {
        let key = |i: usize| shapes::nth_key(i);
        let mut s = base(mode, shapes::empty());
        let mut m = 0;
        for (i, &x) in orders[a].1.iter().enumerate() {
            push(mode, &mut s, Op::Put(key(x), shapes::value(i as u64)), false);
            m += 1;
            if mode == Mode::Results && m % 29 == 0 {
                s.steps.extend([Step::Check { h: 0 }, Step::CheckFresh])
            }
        }
        for &x in orders[b].1.iter() {
            push(mode, &mut s, Op::Del(key(x)), false);
            m += 1;
            if mode == Mode::Results && m % 29 == 0 {
                s.steps.extend([Step::Check { h: 0 }, Step::CheckFresh])
            }
        }
        push(mode, &mut s, Op::Put(key(0), None), true);
        run(ctx, &s);
    });
}

const BYTES: &[&[u8]] = &[b"", b"\0", b"a", b"a\0", b"a\xff", b"\xff"];

/// All sequences over a small alphabet of awkward keys and values
fn awkward(ctx: &Ctx, mode: Mode, depth: usize) {
    let mut ops = vec![];
    for k in BYTES {
        for v in [None, Some(vec![]), Some(vec![0xff, 0])] {
            if mode != Mode::Tree || v.is_none() {
                ops.push(Op::Put(k.to_vec(), v));
            }
        }
        ops.push(Op::Del(k.to_vec()));
    }
    let mut firsts = vec![];
    for log in [shapes::empty(), shapes::header_only()] {
        for a in &ops {
            for b in &ops {
                firsts.push((log.clone(), vec![a.clone(), b.clone()]));
            }
        }
    }
    let probes: Vec<K> = BYTES.iter().map(|k| k.to_vec()).collect();
    ctx.par(&firsts, |(log, pre)| {
        let rest = ops.len().pow(depth as u32 - 2);
        for mut n in 0..rest {
            let mut seq = pre.clone();
            for _ in 2..depth {
                seq.push(ops[n % ops.len()].clone());
                n /= ops.len();
            }
            run(ctx, &sequence(mode, log, false, &seq, &probes));
        }
    });
}

/// Awkward keys, enough of them to split, in every rotation and direction of insertion
fn awkward_splits(ctx: &Ctx, mode: Mode) {
    let mut keys: Vec<K> = [
        &b""[..], b"\0", b"\0\0", b"\x01", b"\x7f", b"\x80", b"\x80\0", b"\xfe\xff", b"\xff", b"\xff\0", b"\xff\xff", b"a", b"a\0", b"ab", b"b",
    ]
    .iter()
    .map(|k| k.to_vec())
    .collect();
    for n in [126, 127, 128, 129, 16383, 16384, 70000] {
        keys.push(vec![b'L'; n]);
    }
    keys.sort();
    let n = keys.len();
    let cases: Vec<(usize, bool, usize)> =
        (0..n).flat_map(|r| [false, true].into_iter().flat_map(move |d| [1, 5, 7].into_iter().map(move |st| (r, d, st)))).collect();
    ctx.par(&cases, |&(rot, rev, stride)| {
        let mut order: Vec<usize> = (0..n).map(|i| (i * stride + rot) % n).collect();
        order.sort_by_key(|x| (x + rot) * stride % 23 % n);
        if rev {
            order.reverse()
        }
        let mut s = base(mode, shapes::empty());
        for (i, &x) in order.iter().enumerate() {
            let v = match i % 4 {
                0 => None,
                1 => Some(vec![]),
                2 => Some(vec![7; 127 + i]),
                _ => Some(keys[x].clone()),
            };
            push(mode, &mut s, Op::Put(keys[x].clone(), v), false);
        }
        if mode == Mode::Results {
            s.steps.extend([Step::Check { h: 0 }, Step::CheckFresh])
        }
        for (i, &x) in order.iter().rev().enumerate() {
            push(mode, &mut s, Op::Del(keys[x].clone()), i + 1 == n || i == n / 2);
        }
        run(ctx, &s);
    });
}

/// Stores whose log is long already: sequence numbers around the boundaries of their encodings
fn long_logs(ctx: &Ctx, mode: Mode) {
    let mut bases: Vec<u64> = vec![];
    for b in [1u64 << 7, 1 << 8, 1 << 14, 1 << 16, 1 << 21, 1 << 28, 1 << 31, 1 << 32, 1 << 35, 1 << 42, 1 << 49, 1 << 53] {
        bases.extend([b - 60, b - 20, b - 9, b - 1, b]);
    }
    if mode == Mode::Results || mode == Mode::Tree {
        bases.extend([(1 << 56) - 9, (1 << 62) - 9, (1u64 << 63) - 90]);
    }
    ctx.par(&bases, |&b| {
        let mut log = Log { base: b, blocks: vec![] };
        log.push(&raw::encode_block(&raw::Block {
            levels: vec![raw::Level { keys: vec![b], children: vec![] }],
            key: shapes::nth_key(7),
            value: Some(b"v".to_vec()),
        }));
        for order in [0, 1, 2] {
            let o = &orders(24)[order].1;
            let mut s = base(mode, log.clone());
            for &x in o {
                push(mode, &mut s, Op::Put(shapes::nth_key(x), shapes::value(x as u64)), false);
            }
            if mode == Mode::Results {
                s.steps.extend([Step::Check { h: 0 }, Step::CheckFresh])
            }
            for &x in &o[2..] {
                push(mode, &mut s, Op::Del(shapes::nth_key(x)), false);
            }
            push(mode, &mut s, Op::Put(shapes::nth_key(5), None), true);
            run(ctx, &s);
        }
    });
}

/// Histories that keep a large tree while keys come and go: in each window, delete d keys and insert e others
fn churn(ctx: &Ctx, mode: Mode, n: usize, rounds: usize) {
    let params: Vec<(usize, usize)> = [1usize, 2, 3, 5, 7, 11, 13].iter().flat_map(|a| [1usize, 3, 4, 9, 10].into_iter().map(|b| (*a, b))).collect();
    ctx.par(&params, |&(stride, burst)| {
        let shape = shapes::Shape::uniform(3, 4);
        let st = shapes::build(&shape);
        let mut present: Vec<K> = st.spec.map.keys().cloned().collect();
        let mut s = base(mode, st.log.clone());
        let mut gone: Vec<K> = vec![];
        let mut at = 0;
        for r in 0..rounds {
            for _ in 0..burst {
                at = (at + stride) % present.len();
                let k = present.remove(at);
                push(mode, &mut s, Op::Del(k.clone()), false);
                gone.push(k);
            }
            if r % 2 == 1 {
                for _ in 0..burst.min(gone.len()) * 2 {
                    let Some(k) = gone.pop() else { break };
                    push(mode, &mut s, Op::Put(k.clone(), shapes::value(r as u64)), false);
                    let i = present.binary_search(&k).unwrap_err();
                    present.insert(i, k);
                }
            }
            if mode == Mode::Results && r % 5 == 4 {
                s.steps.extend([Step::Check { h: 0 }, Step::CheckFresh])
            }
            if present.len() < n / 4 + burst {
                break;
            }
        }
        run(ctx, &s);
    });
}

/// Thousands of mutations on one handle: what is kept in memory grows, or is let go of, as it would in long use
fn endurance(ctx: &Ctx, mode: Mode, n: usize, keys: usize) {
    ctx.par(&[(7usize, 3usize), (31, 2), (1, 5)], |&(stride, del)| {
        let mut s = base(mode, shapes::empty());
        let mut x = 0;
        for i in 0..n {
            x = (x * 5 + stride * (i / keys + 1)) % keys;
            let k = shapes::nth_key(x);
            // a step deletes only sometimes, so that the store stays large
            let op = if i % (del + 2) >= del && i > keys / 2 { Op::Del(k) } else { Op::Put(k, shapes::value(i as u64)) };
            push(mode, &mut s, op, false);
            if mode == Mode::Results && i % 97 == 96 {
                s.steps.extend([Step::Check { h: 0 }, Step::CheckFresh])
            }
        }
        push(mode, &mut s, Op::Put(shapes::nth_key(keys), None), true);
        run(ctx, &s);
    });
}

/// Keys and values much larger than usual
fn big(ctx: &Ctx, mode: Mode, sizes: &[usize]) {
    let sizes: Vec<(usize, bool)> = sizes.iter().flat_map(|s| [(*s, false), (*s, true)]).collect();
    ctx.par(&sizes, |&(n, key)| {
        let st = shapes::build(&shapes::Shape::Node(vec![shapes::Shape::Leaf(4), shapes::Shape::Leaf(8)]));
        let k = |c: u8| if key { vec![c; n] } else { vec![c, c] };
        let v = |c: u8| if key { None } else { Some(vec![c; n]) };
        let first = st.spec.map.keys().next().unwrap().clone();
        let ops = [
            Op::Put(k(b'd'), v(1)),
            Op::Put(k(b'z'), v(2)),
            Op::Put(k(b'd'), v(3)),
            Op::Put(first, v(4)),
            Op::Get(k(b'z')),
            Op::Del(k(b'd')),
        ];
        run(ctx, &sequence(mode, &st.log, false, &ops, &[k(b'y')]));
    });
}

/// Tens of thousands of keys, all of them read and read again through one handle, then changed
fn many_keys(ctx: &Ctx, mode: Mode, height: usize) {
    let shape = shapes::Shape::uniform(height, 4);
    let s = shapes::build(&shape);
    let n = s.spec.map.len();
    ctx.note(format!("a tree of {n} keys"));
    let ops = [
        Op::Put(shapes::nth_key(n / 3), Some(b"new".to_vec())),
        Op::Del(shapes::nth_key(n / 2)),
        Op::Put(shapes::nth_key(n), None),
        Op::Del(shapes::nth_key(0)),
    ];
    let mut sc = sequence(mode, &s.log, mode == Mode::Results, &ops, &[]);
    sc.stride = 37;
    run(ctx, &sc);
}

/// Tall trees, in which a mutation splits, merges or rotates at every level
fn tall(ctx: &Ctx, mode: Mode, heights: std::ops::RangeInclusive<usize>) {
    use shapes::Shape::{self, Leaf, Node};
    /// `len` keys in every node on the way to the first, middle or last leaf, 4 in the nodes beside it (5 in the right
    /// one, with `donor`)
    fn along(height: usize, len: usize, at: usize, donor: bool) -> Shape {
        if height == 1 {
            return Leaf(len);
        }
        let i = [0, len / 2, len][at];
        Node(
            (0..=len)
                .map(|j| {
                    if j == i {
                        along(height - 1, len, at, donor)
                    } else if j == i + 1 && donor {
                        Shape::uniform(height - 1, 4).with_root_keys(5)
                    } else {
                        Shape::uniform(height - 1, 4)
                    }
                })
                .collect(),
        )
    }
    let mut cases = vec![];
    for h in heights {
        for at in 0..3 {
            for (len, donor) in [(8, false), (4, false), (4, true), (6, false)] {
                cases.push((h, at, len, donor));
            }
        }
    }
    ctx.par(&cases, |&(h, at, len, donor)| {
        let s = shapes::build(&along(h, len, at, donor));
        let keys: Vec<&K> = s.spec.map.keys().collect();
        let n = keys.len();
        let here = match at {
            0 => 0,
            1 => along_before(h, len),
            _ => n - len,
        };
        let gap = shapes::between(here.checked_sub(1).map(|i| &keys[i][..]), Some(&keys[here][..]));
        for op in [
            Op::Put(gap, shapes::value(n as u64)),
            Op::Put(keys[here + len / 2].clone(), None),
            Op::Del(keys[here].clone()),
            Op::Del(keys[here + len - 1].clone()),
        ] {
            let (Op::Put(k, _) | Op::Del(k)) = &op else { unreachable!() };
            let k = k.clone();
            let mut sc = sequence(mode, &s.log, false, &[op], &[k]);
            sc.stride = 97;
            run(ctx, &sc);
        }
    });
    ctx.note("tall trees");
}

/// keys before the middle leaf of `along`
fn along_before(height: usize, len: usize) -> usize {
    if height == 1 {
        return 0;
    }
    (len / 2) * (shapes::Shape::uniform(height - 1, 4).n_keys() + 1) + along_before(height - 1, len)
}

fn suite(ctx: &Ctx, mode: Mode) {
    let t = ctx.thorough;
    let states = shapes::reachable(ctx, if t { 39 } else { 27 });
    from_every_shape(ctx, mode, &states);
    ctx.note(format!("one mutation from every shape: {} cases so far", ctx.cases.load(std::sync::atomic::Ordering::Relaxed)));
    // two mutations on one (then warm) handle
    let small: Vec<&State> = states.iter().filter(|s| s.spec.map.len() <= if t { 22 } else { 14 }).collect();
    ctx.par(&small, |s| sequences(ctx, mode, s, 2, &|_| vec![]));
    let tiny: Vec<&State> = states.iter().filter(|s| s.spec.map.len() <= if t { 14 } else { 9 }).collect();
    ctx.par(&tiny, |s| sequences(ctx, mode, s, 3, &|_| vec![]));
    ctx.note("sequences of two and three mutations");
    three_levels(ctx, mode);
    awkward(ctx, mode, if t { 4 } else { 3 });
    awkward_splits(ctx, mode);
    long_logs(ctx, mode);
    ctx.note("small alphabets, awkward keys, long logs");
    marches(ctx, mode, if t { 420 } else { 280 });
    churn(ctx, mode, 124, if t { 60 } else { 20 });
    endurance(ctx, mode, if t { 6000 } else { 3000 }, 170);
    if mode == Mode::Results {
        many_keys(ctx, mode, 7);
    }
    tall(ctx, mode, 4..=if t { 7 } else { 6 });
    big(ctx, mode, &[1 << 16, 100_000, 1 << 20, 1 << 24]);
    ctx.note("long histories");
}

pub fn c01(ctx: &Ctx) {
    suite(ctx, Mode::Results);
    crate::c_env::opened(ctx, &constructed(), if ctx.thorough { 4 } else { 3 });
}
pub fn c02(ctx: &Ctx) {
    suite(ctx, Mode::Tree)
}
pub fn c03(ctx: &Ctx) {
    suite(ctx, Mode::Bytes)
}

pub fn c19(ctx: &Ctx) {
    let t = ctx.thorough;
    let mode = Mode::Len;
    let states = shapes::reachable(ctx, if t { 35 } else { 27 });
    from_every_shape(ctx, mode, &states);
    let small: Vec<&State> = states.iter().filter(|s| s.spec.map.len() <= if t { 16 } else { 9 }).collect();
    ctx.par(&small, |s| sequences(ctx, mode, s, 2, &inert));
    let tiny: Vec<&State> = states.iter().filter(|s| s.spec.map.len() <= if t { 6 } else { 3 }).collect();
    ctx.par(&tiny, |s| sequences(ctx, mode, s, 3, &inert));
    awkward(ctx, mode, if t { 4 } else { 3 });
    three_levels(ctx, mode);
    long_logs(ctx, mode);
    marches(ctx, mode, if t { 280 } else { 120 });
    endurance(ctx, mode, 3000, 170);
    crate::c_env::opened(ctx, &constructed(), if t { 4 } else { 3 });
}

/// Operations for stores that hyperbee opens itself
fn constructed() -> Vec<Op> {
    let (a, b) = (shapes::nth_key(0), b"other".to_vec());
    let sub = Sub { prefix: a[..1].to_vec(), sep: Some(vec![]) };
    vec![
        Op::Put(a.clone(), None),
        Op::Put(b.clone(), Some(b"v".to_vec())),
        Op::Del(a.clone()),
        Op::Del(b.clone()),
        Op::Get(a.clone()),
        Op::PutCas(a.clone(), Some(vec![]), Cas::Reject),
        Op::DelCas(a.clone(), Cas::Reject),
        Op::DelCas(b, Cas::Accept),
        Op::Traverse(Range::all()),
        Op::In(sub.clone(), Box::new(Op::Put(a[1..].to_vec(), Some(vec![1])))),
        Op::In(sub, Box::new(Op::Traverse(Range::all()))),
    ]
}
