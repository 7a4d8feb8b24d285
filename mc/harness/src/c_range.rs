//! C05, C06, C07, C23: traversal ranges, their configuration, limits, height and print.
use crate::exec;
use crate::ops::*;
use crate::raw;
use crate::report::Ctx;
use crate::script::{self, Plan, Script, Step, Want};
use crate::shapes::{self, State};
use hyperbee::traverse::{LimitValue, TraverseConfig, TraverseConfigBuilder};
use hypercore::mc::{CoreHandle, Log};
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

/// Every place a bound can fall: outside, at each key, between keys
fn bounds(spec: &Spec) -> Vec<B> {
    let mut v = vec![B::NegInf, B::PosInf, B::F(vec![]), B::F(vec![0xff; 3])];
    v.extend(shapes::gaps(spec).into_iter().map(B::F));
    v.extend(spec.map.keys().cloned().map(B::F));
    v
}

fn traverse_script(log: &Log, ranges: Vec<Range>, plan: Plan) -> Script {
    let mut s = Script::new(log.clone());
    for r in ranges {
        s.steps.push(Step::Do { h: 0, op: Op::Traverse(r), want: Want::Exact, plan: plan.clone() });
    }
    s
}

fn run(ctx: &Ctx, s: &Script) {
    ctx.case("script", s, script::run);
}

fn four(min: &B, max: &B) -> Vec<Range> {
    let mut v = vec![];
    for (min_inc, max_inc) in [(true, true), (true, false), (false, true), (false, false)] {
        for rev in [false, true] {
            v.push(Range { min: min.clone(), min_inc, max: max.clone(), max_inc, rev });
        }
    }
    v
}

pub fn c05(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut states = shapes::reachable(ctx, if t { 27 } else { 21 });
    states.extend(shapes::far());
    // trees with an internal root, deeper ones, and one whose root was emptied
    for s in [shapes::Shape::uniform(2, 8), shapes::Shape::uniform(3, 4)] {
        states.push(shapes::build(&s));
    }
    ctx.count("states", states.len() as u64);
    // all pairs of bounds
    let mut work: Vec<(usize, B)> = vec![];
    for (i, s) in states.iter().enumerate() {
        if s.spec.map.len() <= if t { 44 } else { 20 } {
            work.extend(bounds(&s.spec).into_iter().map(|b| (i, b)));
        }
    }
    ctx.par(&work, |(i, min)| {
        let s = &states[*i];
        let ranges: Vec<Range> = bounds(&s.spec).iter().flat_map(|max| four(min, max)).collect();
        run(ctx, &traverse_script(&s.log, ranges, Plan::default()));
    });
    ctx.note(format!("all pairs of bounds: {} cases", work.len()));
    // one bound, on a handle that has read nothing yet, and with every read delayed
    let mut work: Vec<(usize, B)> = vec![];
    for (i, s) in states.iter().enumerate() {
        work.extend(bounds(&s.spec).into_iter().map(|b| (i, b)));
    }
    ctx.par(&work, |(i, b)| {
        let s = &states[*i];
        let big = s.spec.map.len() > 44;
        let mut ranges: Vec<Range> = four(b, &B::PosInf);
        ranges.extend(four(&B::NegInf, b));
        ranges.extend(four(b, b));
        if let B::F(k) = b {
            // an adjacent bound
            let next = s.spec.map.range(k.clone()..).nth(1).map(|x| B::F(x.0.clone()));
            if let Some(n) = next {
                ranges.extend(four(b, &n));
                ranges.extend(four(&n, b));
            }
        }
        for r in ranges {
            run(ctx, &traverse_script(&s.log, vec![r.clone()], Plan::default()));
            if !big {
                run(ctx, &traverse_script(&s.log, vec![r.clone()], Plan { pend_all: true, ..Plan::default() }));
            }
        }
    });
    ctx.note(format!("single bounds on fresh handles: {} bounds", work.len()));
    // each single read delayed
    let small: Vec<&State> = states.iter().filter(|s| s.spec.map.len() <= 12).collect();
    ctx.par(&small, |s| {
        for r in [Range::all(), Range::all().rev()] {
            for n in 0..40 {
                run(ctx, &traverse_script(&s.log, vec![r.clone()], Plan { pend: vec![n], ..Plan::default() }));
            }
        }
    });
    // every suspension point of the locks as well: polled one step at a time
    ctx.par(&small, |s| {
        for b in bounds(&s.spec) {
            for r in [
                Range { min: b.clone(), ..Range::all() },
                Range { min: b.clone(), ..Range::all() }.rev(),
                Range { max: b.clone(), ..Range::all() },
                Range { max: b.clone(), max_inc: false, ..Range::all() }.rev(),
            ] {
                let mut sc = Script::new(s.log.clone());
                sc.steps = vec![Step::Open { h: 0, sub: None, range: r }, Step::Poll { s: 0, polls: 3000 }, Step::Finish { s: 0 }];
                run(ctx, &sc);
            }
        }
    });
    // pairs of bounds in deep trees
    for (shape, every, stride) in [
        (shapes::Shape::uniform(3, 4), 1, if t { 1 } else { 7 }),
        (shapes::Shape::uniform(4, 4), if t { 5 } else { 23 }, if t { 17 } else { 89 }),
        (shapes::Shape::uniform(5, 4), if t { 157 } else { 619 }, if t { 311 } else { 1249 }),
    ] {
        let s = shapes::build(&shape);
        let bs = bounds(&s.spec);
        let mins: Vec<&B> = bs.iter().step_by(every).collect();
        ctx.par(&mins, |min| {
            let ranges: Vec<Range> = bs.iter().step_by(stride).flat_map(|max| four(min, max)).collect();
            run(ctx, &traverse_script(&s.log, ranges, Plan::default()));
        });
    }
    ctx.note("pairs of bounds in deep trees");
    // awkward keys, all subsets, all pairs of bounds over them
    let uni: Vec<K> = [&b""[..], b"\0", b"\0\0", b"a", b"a\0", b"a\xff", b"\xff", b"\xff\xff"].iter().map(|k| k.to_vec()).collect();
    let subsets: Vec<u32> = (0..1 << uni.len()).collect();
    ctx.par(&subsets, |bits| {
        let mut log = shapes::header_only();
        for (i, k) in uni.iter().enumerate() {
            if bits & 1 << i != 0 {
                log = shapes::model_step(&log, &Op::Put(k.clone(), shapes::value(i as u64))).unwrap();
            }
        }
        let mut bs = vec![B::NegInf, B::PosInf];
        bs.extend(uni.iter().cloned().map(B::F));
        bs.extend([&b"\x01"[..], b"a\x01", b"b"].iter().map(|k| B::F(k.to_vec())));
        let ranges: Vec<Range> = bs.iter().flat_map(|a| bs.iter().flat_map(move |b| four(a, b))).collect();
        run(ctx, &traverse_script(&log, ranges, Plan::default()));
    });
}

// ---------------------------------------------------------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conf {
    /// values given, in order of the calls (the last one counts)
    min: Vec<B>,
    max: Vec<B>,
    min_inc: Option<bool>,
    max_inc: Option<bool>,
    rev: Option<bool>,
    max_first: bool,
}

fn limit(b: &B) -> LimitValue {
    let d = TraverseConfig::default();
    match b {
        B::NegInf => d.min_value,
        B::PosInf => d.max_value,
        B::F(k) => LimitValue::Finite(k.clone()),
    }
}
/// What a limit is, told apart by the only finite value it equals
fn same(l: &LimitValue, b: &B) -> bool {
    match (l, b) {
        (LimitValue::Finite(a), B::F(b)) => a == b,
        (LimitValue::Infinite(i), B::NegInf) => i.partial_cmp(&b""[..]) == Some(Ordering::Less),
        (LimitValue::Infinite(i), B::PosInf) => i.partial_cmp(&b"\xff\xff\xff\xff"[..]) == Some(Ordering::Greater),
        _ => false,
    }
}

pub fn run_conf(c: &Conf) -> Result<(u64, u64), String> {
    let mut b = TraverseConfigBuilder::default();
    for pass in [c.max_first, !c.max_first] {
        if pass {
            for m in &c.max {
                b.max_value(limit(m));
            }
            if let Some(x) = c.max_inc {
                b.max_inclusive(x);
            }
        } else {
            for m in &c.min {
                b.min_value(limit(m));
            }
            if let Some(x) = c.min_inc {
                b.min_inclusive(x);
            }
        }
    }
    if let Some(x) = c.rev {
        b.reversed(x);
    }
    let min = c.min.last().cloned().unwrap_or(B::NegInf);
    let max = c.max.last().cloned().unwrap_or(B::PosInf);
    let (mi, ma) = (c.min_inc.unwrap_or(true), c.max_inc.unwrap_or(true));
    // the library's own tests document that a single bound is always accepted (and yields nothing if unsatisfiable)
    let both = !c.min.is_empty() && !c.max.is_empty();
    let contradiction = both && match (&min, &max) {
        (B::PosInf, _) | (_, B::NegInf) => true,
        (B::F(a), B::F(b)) => a > b || a == b && !(mi && ma),
        _ => false,
    };
    let r = exec::catch(move || b.build()).map_err(|b| format!("build {b}"))?;
    match (r, contradiction) {
        (Ok(_), true) => Err("a contradictory range was accepted".into()),
        (Err(e), false) => Err(format!("a satisfiable range was rejected: {e}")),
        (Err(_), true) => Ok((1, 1)),
        (Ok(k), false) => {
            if !same(&k.min_value, &min) || !same(&k.max_value, &max) {
                return Err(format!("the configuration has limits {:?} and {:?}", k.min_value, k.max_value));
            }
            if k.min_inclusive != mi || k.max_inclusive != ma || k.reversed != c.rev.unwrap_or(false) {
                return Err(format!("the configuration is {k:?}"));
            }
            let h = (mi as u64) << 1 | (ma as u64) << 2 | (k.reversed as u64) << 3 | 1 << 4;
            Ok((h.wrapping_mul(0x9e3779b97f4a7c15), 1))
        }
    }
}

pub fn c06(ctx: &Ctx) {
    let keys: Vec<&[u8]> = if ctx.thorough {
        vec![b"", b"\0", b"\0\0", b"\x01", b"1", b"10", b"2", b"a", b"a\0", b"a\xff", b"b", b"\xfe", b"\xff", b"\xff\0", b"\xff\xff", b"aaaaaaaaaaaaaaaaaaaaaaaa"]
    } else {
        vec![b"", b"\0", b"10", b"2", b"a", b"a\0", b"b", b"\xff", b"\xff\xff"]
    };
    let mut one: Vec<Vec<B>> = vec![vec![], vec![B::NegInf], vec![B::PosInf]];
    one.extend(keys.iter().map(|k| vec![B::F(k.to_vec())]));
    // set twice: the last call counts
    let mut values = one.clone();
    for first in [B::PosInf, B::NegInf, B::F(b"b".to_vec())] {
        for second in &one[1..] {
            values.push(vec![first.clone(), second[0].clone()]);
        }
    }
    let opt = [None, Some(true), Some(false)];
    let mut cases = vec![];
    for min in &values {
        for max in &values {
            for min_inc in opt {
                for max_inc in opt {
                    for rev in opt {
                        for max_first in [false, true] {
                            cases.push(Conf { min: min.clone(), max: max.clone(), min_inc, max_inc, rev, max_first });
                        }
                    }
                }
            }
        }
    }
    ctx.par(&cases, |c| ctx.case("conf", c, run_conf));
    let d = TraverseConfig::default();
    let ok = same(&d.min_value, &B::NegInf) && same(&d.max_value, &B::PosInf) && d.min_inclusive && d.max_inclusive && !d.reversed;
    if !ok {
        ctx.violate("conf", serde_json::json!("TraverseConfig::default()"), &format!("the default configuration is {d:?}"));
    }
    ctx.count("states", values.len() as u64);
}

// ---------------------------------------------------------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cmp {
    limit: B,
    #[serde(with = "hex")]
    key: Vec<u8>,
}

pub fn run_cmp(c: &Cmp) -> Result<(u64, u64), String> {
    let l = limit(&c.limit);
    let k = &c.key[..];
    let want = match &c.limit {
        B::NegInf => Ordering::Less,
        B::PosInf => Ordering::Greater,
        B::F(f) => f[..].cmp(k),
    };
    fn all<A: PartialOrd<Y> + ?Sized, Y: ?Sized>(a: &A, b: &Y, want: Ordering) -> bool {
        a.partial_cmp(b) == Some(want)
            && (a < b) == (want == Ordering::Less)
            && (a <= b) == (want != Ordering::Greater)
            && (a > b) == (want == Ordering::Greater)
            && (a >= b) == (want != Ordering::Less)
            && (a == b) == (want == Ordering::Equal)
            && (a != b) == (want != Ordering::Equal)
    }
    let r = exec::catch(|| {
        if !all(&l, k, want) {
            return Err(format!("{l:?} compared with {k:?} is not {want:?}"));
        }
        if let LimitValue::Infinite(i) = &l {
            if !all(i, k, want) {
                return Err(format!("{i:?} compared with {k:?} is not {want:?}"));
            }
            if !all(k, i, want.reverse()) {
                return Err(format!("{k:?} compared with {i:?} is not {:?}", want.reverse()));
            }
        }
        Ok(())
    });
    r.map_err(|b| format!("the comparison {b}"))??;
    Ok(((want as i8 + 7) as u64, 1))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Num(u64);

pub fn run_num(n: &Num) -> Result<(u64, u64), String> {
    match LimitValue::from(n.0 as usize) {
        LimitValue::Finite(v) if v == decimal(n.0) => Ok((v.len() as u64, 1)),
        l => Err(format!("the limit made from {} is {l:?}", n.0)),
    }
}
fn decimal(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    loop {
        v.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    v.reverse();
    v
}

pub fn c07(ctx: &Ctx) {
    let mut keys: Vec<Vec<u8>> = vec![vec![]];
    let alphabet: &[u8] = &[0, 1, b'0', b'9', b'a', 0x7f, 0x80, 0xfe, 0xff];
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..if ctx.thorough { 4 } else { 3 } {
        level = level
            .iter()
            .flat_map(|p| {
                alphabet.iter().map(move |b| {
                    let mut q = p.clone();
                    q.push(*b);
                    q
                })
            })
            .collect();
        keys.extend(level.iter().cloned());
    }
    keys.extend((0..=255u8).map(|b| vec![b]));
    keys.extend([vec![0xff; 300], vec![0; 300], vec![0xff; 70000]]);
    let finite: Vec<&Vec<u8>> = keys.iter().filter(|k| k.len() <= 2).collect();
    ctx.par(&keys, |k| {
        for l in [B::NegInf, B::PosInf] {
            ctx.case("cmp", &Cmp { limit: l, key: k.clone() }, run_cmp);
        }
        for f in &finite {
            ctx.case("cmp", &Cmp { limit: B::F(f.to_vec()), key: k.clone() }, run_cmp);
        }
        ctx.case("cmp", &Cmp { limit: B::F(k.clone()), key: k.clone() }, run_cmp);
        for b in [0, 0xff] {
            let mut q = k.clone();
            q.push(b);
            ctx.case("cmp", &Cmp { limit: B::F(q.clone()), key: k.clone() }, run_cmp);
            ctx.case("cmp", &Cmp { limit: B::F(k.clone()), key: q }, run_cmp);
        }
    });
    let mut nums: Vec<u64> = (0..if ctx.thorough { 200_000 } else { 20_000 }).collect();
    for p in 0..64 {
        for d in -2i64..=2 {
            nums.push((1u64 << p).wrapping_add_signed(d));
        }
    }
    for p in 0..20 {
        for d in -2i64..=2 {
            nums.push(10u64.pow(p).wrapping_add_signed(d));
        }
    }
    ctx.par(&nums, |n| ctx.case("num", &Num(*n), run_num));
    ctx.count("states", keys.len() as u64);
}

// ---------------------------------------------------------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Look {
    #[serde(with = "script::logser")]
    log: Log,
    warm: bool,
    pend_all: bool,
}

pub fn run_look(c: &Look) -> Result<(u64, u64), String> {
    let core = CoreHandle::new(c.log.clone());
    core.with(|s| s.pend_all = c.pend_all);
    let hb = script::open(&core);
    if c.warm {
        exec::run(&core, apply(&hb, &Op::Traverse(Range::all()))).map_err(|b| format!("a traversal {b}"))?;
    }
    let tree = raw::check_tree(&c.log).map_err(|e| format!("bad case: {e}"))?;
    let (height, text) = match &tree {
        None => (0, String::new()),
        Some(t) => {
            let mut view = raw::View::new(&c.log);
            let mut text = String::new();
            fn walk(view: &mut raw::View, t: &raw::TreeNode, depth: usize, out: &mut String) {
                for i in 0..=t.keys.len() {
                    if let Some(c) = t.children.get(i) {
                        walk(view, c, depth + 1, out)
                    }
                    if let Some(k) = t.keys.get(i) {
                        out.push_str(&"\t".repeat(depth));
                        out.push_str(&String::from_utf8(view.key(*k).unwrap()).expect("text keys"));
                        out.push('\n');
                    }
                }
            }
            walk(&mut view, t, 0, &mut text);
            (t.height(), text)
        }
    };
    let h = exec::run(&core, apply(&hb, &Op::Height)).map_err(|b| format!("height {b}"))?;
    if h != Res::Height(height) {
        return Err(format!("height is {h:?}, the tree has {height} levels"));
    }
    let p = exec::run(&core, apply(&hb, &Op::Print)).map_err(|b| format!("print {b}"))?;
    let ok = match &p {
        Res::Print(s) => *s == text,
        Res::NoRoot => tree.is_none(),
        _ => false,
    };
    if !ok {
        return Err(format!("print gave {p:?}, expected {text:?}"));
    }
    if core.log() != c.log {
        return Err("height or print changed the log".into());
    }
    Ok((height as u64 * 1000 + text.len() as u64, 2))
}

pub fn c23(ctx: &Ctx) {
    let mut logs: Vec<Log> = shapes::reachable(ctx, if ctx.thorough { 35 } else { 24 }).into_iter().map(|s| s.log).collect();
    logs.push(shapes::header_only());
    for h in 1..=3 {
        for k in 4..=8 {
            logs.push(shapes::build(&shapes::Shape::uniform(h, k)).log);
        }
    }
    for h in 4..=if ctx.thorough { 6 } else { 5 } {
        logs.push(shapes::build(&shapes::Shape::uniform(h, 4)).log);
    }
    let configs = shapes::local_configs(&[4, 8], &[4, 8], &[1, 2]);
    logs.extend(configs.iter().map(|c| shapes::build(&c.0).log));
    // text keys that are not single letters, multi-byte text, and empty
    let words = ["", "a", "a b", "\u{e9}", "\u{1f41d}", "tab\there", "line\nbreak", "z", "zz", "zzz", "\u{0}", " a", "a ", " ", "\t", "\ta", "a\n", "\n", "\r", "\u{a0}", "\u{2003}z", "z\u{feff}", "\"", "\\", "{}", "A"];
    let mut log = shapes::header_only();
    for w in words {
        log = shapes::model_step(&log, &Op::Put(w.as_bytes().to_vec(), None)).unwrap();
        logs.push(log.clone());
    }
    ctx.count("states", logs.len() as u64);
    ctx.par(&logs, |log| {
        for warm in [false, true] {
            for pend_all in [false, true] {
                ctx.case("look", &Look { log: log.clone(), warm, pend_all }, run_look);
            }
        }
    });
    // after real mutations through the same handle
    let states = shapes::reachable(ctx, if ctx.thorough { 24 } else { 16 });
    ctx.par(&states, |s| {
        for op in shapes::mutations(&s.spec) {
            ctx.case("look_after", &LookAfter { log: s.log.clone(), op }, run_look_after);
        }
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LookAfter {
    #[serde(with = "script::logser")]
    log: Log,
    op: Op,
}
pub fn run_look_after(c: &LookAfter) -> Result<(u64, u64), String> {
    let core = CoreHandle::new(c.log.clone());
    let hb = script::open(&core);
    let r = exec::run(&core, async {
        apply(&hb, &Op::Traverse(Range::all())).await;
        apply(&hb, &c.op).await;
        (apply(&hb, &Op::Height).await, apply(&hb, &Op::Print).await)
    })
    .map_err(|b| format!("an operation {b}"))?;
    let fresh = script::open(&core);
    let f = exec::run(&core, async { (apply(&fresh, &Op::Height).await, apply(&fresh, &Op::Print).await) })
        .map_err(|b| format!("an operation {b}"))?;
    if r != f {
        return Err(format!("the writing handle reports {r:?}, a new one {f:?}"));
    }
    let mut l = run_look(&Look { log: core.log(), warm: false, pend_all: false })?;
    l.1 += 6;
    Ok(l)
}
