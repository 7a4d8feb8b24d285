//! C18: damaged blocks.
use crate::exec;
use crate::ops::*;
use crate::raw::{self, Block, Level};
use crate::report::Ctx;
use crate::script::{self, logser};
use crate::shapes::{self, Shape, State};
use hypercore::mc::{CoreHandle, Event, Log};
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

/// One block of a log replaced
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Damage {
    #[serde(with = "logser")]
    pub log: Log,
    pub seq: u64,
    #[serde(with = "hex")]
    pub bytes: Vec<u8>,
    /// what is left are right references, and references to what does not exist; keys are unchanged
    pub structural: bool,
    /// read-only operations, then each of the mutations on its own
    pub reads: Vec<Op>,
    pub writes: Vec<Op>,
}

/// What prost makes of a block: as raw::decode_block, but required fields may be missing
fn lenient(b: &[u8]) -> Option<Block> {
    // index (field 1) and key (field 2) first, so that they are there if the block does not have them
    let mut v = vec![1 << 3 | 2, 0, 2 << 3 | 2, 0];
    v.extend_from_slice(b);
    raw::decode_block(&v)
}

/// Groups may be skipped or rejected by a decoder
fn has_groups(b: &[u8]) -> bool {
    // over-approximation: any tag byte of wire type 3 or 4 could be one
    b.iter().any(|x| matches!(x & 7, 3 | 4))
}

fn malformed(l: &Level) -> bool {
    l.children.len() % 2 != 0 || !l.children.is_empty() && (l.keys.is_empty() || l.children.len() / 2 != l.keys.len() + 1)
}

fn block(log: &Log, seq: u64) -> Option<Block> {
    log.get(seq).and_then(|b| lenient(b))
}

/// The tree of the log is finite (a reference cycle is out of scope)
fn finite(log: &Log) -> bool {
    fn go(log: &Log, s: u64, o: u64, stack: &mut Vec<(u64, u64)>, done: &mut HashSet<(u64, u64)>) -> bool {
        if stack.contains(&(s, o)) {
            return false;
        }
        if !done.insert((s, o)) {
            return true;
        }
        let Some(l) = block(log, s).and_then(|b| b.levels.get(usize::try_from(o).ok()?).cloned()) else { return true };
        stack.push((s, o));
        let r = l.children.chunks_exact(2).all(|c| go(log, c[0], c[1], stack, done));
        stack.pop();
        r
    }
    log.len() < 2 || go(log, log.len() - 1, 0, &mut vec![], &mut HashSet::new())
}

/// For structural damage: does looking up `key` (None: reading everything) need something that does not exist?
fn needs_broken(good: &Log, bad: &Log, key: Option<&[u8]>) -> bool {
    fn walk(good: &Log, bad: &Log, g: (u64, u64), b: (u64, u64), key: Option<&[u8]>) -> bool {
        let gl = block(good, g.0).unwrap().levels[g.1 as usize].clone();
        let Some(bb) = block(bad, b.0) else { return true };
        let Some(bl) = usize::try_from(b.1).ok().and_then(|o| bb.levels.get(o)) else { return true };
        if malformed(bl) {
            return true;
        }
        let keys: Vec<Vec<u8>> = gl.keys.iter().map(|s| block(good, *s).unwrap().key).collect();
        let broken_key = |i: usize| bl.keys[i] != gl.keys[i] || block(bad, bl.keys[i]).is_none();
        let child = |i: usize| {
            let r = |l: &Level| (l.children[2 * i], l.children[2 * i + 1]);
            walk(good, bad, r(&gl), r(bl), key)
        };
        match key {
            None => (0..keys.len()).any(broken_key) || (0..gl.children.len() / 2).any(child),
            Some(k) => match keys.iter().position(|x| &x[..] >= k) {
                Some(i) if keys[i] == k => broken_key(i),
                i => !gl.children.is_empty() && child(i.unwrap_or(keys.len())),
            },
        }
    }
    if good.len() < 2 {
        return false;
    }
    let root = (good.len() - 1, 0);
    walk(good, bad, root, root, key)
}

fn touched(core: &CoreHandle) -> HashSet<u64> {
    core.with(|c| c.trace.take().unwrap_or_default())
        .into_iter()
        .filter_map(|e| match e {
            Event::Get(s) => Some(s),
            _ => None,
        })
        .collect()
}
fn trace(core: &CoreHandle) {
    core.with(|c| c.trace = Some(vec![]))
}

/// What an operation does on the undamaged log: result, blocks it reads, blocks it appends
type Base = std::rc::Rc<(Res, HashSet<u64>, Vec<std::sync::Arc<[u8]>>)>;
thread_local! {
    /// of the log with this hash
    static BASE: std::cell::RefCell<(u64, std::collections::HashMap<Op, Base>)> = Default::default();
}
fn undamaged(log: &Log, id: u64, op: &Op) -> Result<Base, String> {
    if let Some(b) = BASE.with(|c| {
        let mut c = c.borrow_mut();
        if c.0 != id {
            *c = (id, Default::default());
        }
        c.1.get(op).cloned()
    }) {
        return Ok(b);
    }
    let good = CoreHandle::new(log.clone());
    let hb = script::open(&good);
    trace(&good);
    let want = exec::run(&good, apply(&hb, op)).map_err(|b| format!("{op:?}, undamaged, {b}"))?;
    let reads = touched(&good);
    let b: Base = std::rc::Rc::new((want, reads, good.log().blocks[log.blocks.len()..].to_vec()));
    BASE.with(|c| c.borrow_mut().1.insert(op.clone(), b.clone()));
    Ok(b)
}

pub fn run(d: &Damage) -> Result<(u64, u64), String> {
    use std::hash::{Hash, Hasher};
    let id = {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (d.log.base, &d.log.blocks).hash(&mut h);
        h.finish()
    };
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let mut n = 0;
    let mut bad_log = d.log.clone();
    bad_log.blocks[(d.seq - d.log.base) as usize] = std::sync::Arc::from(&d.bytes[..]);
    let gone = lenient(&d.bytes).is_none() && !has_groups(&d.bytes);
    let mut one = |op: &Op, hb: &hyperbee::Hyperbee, core: &CoreHandle| -> Result<Res, String> {
        let base = undamaged(&d.log, id, op)?;
        let (want, needs) = (&base.0, base.1.contains(&d.seq));
        trace(core);
        let len0 = core.len();
        let got = exec::run(core, apply(hb, op)).map_err(|b| format!("{op:?} {b}"))?;
        let read = touched(core);
        n += 1;
        (op.kind(), got.is_err()).hash(&mut h);
        if got.is_err() && core.len() != len0 {
            return Err(format!("{op:?} failed ({got:?}) but appended a block"));
        }
        if !needs {
            if !script::res_eq(want, &got) {
                return Err(format!("{op:?} does not need block {}, but returned {got:?}, expected {want:?}", d.seq));
            }
            if op.mutates() && core.log().blocks[d.log.blocks.len()..] != base.2[..] {
                return Err(format!("{op:?} does not need block {}, but appended something else", d.seq));
            }
            return Ok(got);
        }
        if gone && read.contains(&d.seq) && !got.is_err() {
            return Err(format!("{op:?} read block {}, which does not decode, and returned {got:?}", d.seq));
        }
        if let Some(s) = read.iter().find(|s| bad_log.get(**s).is_none() && **s < len0) {
            if !got.is_err() {
                return Err(format!("{op:?} needed block {s}, which does not exist, and returned {got:?}"));
            }
        }
        if d.structural {
            if !got.is_err() && !script::res_eq(want, &got) {
                return Err(format!("{op:?} returned {got:?}, expected {want:?} or an error"));
            }
            if let (Res::ItemsErr(items, _), Res::Items(w)) = (&got, want) {
                script::subsequence(items, w)?;
            }
            let must = match op {
                Op::Get(k) => needs_broken(&d.log, &bad_log, Some(k)),
                Op::Traverse(r) if *r == Range::all() || *r == Range::all().rev() => needs_broken(&d.log, &bad_log, None),
                _ => false,
            };
            if must && !got.is_err() {
                return Err(format!("{op:?} needs what does not exist any more, and returned {got:?}"));
            }
        }
        Ok(got)
    };
    let what = |e: String| format!("with block {} replaced by {}: {e}", d.seq, if d.bytes.is_empty() { "nothing".into() } else { hex::enc(&d.bytes) });
    let core = CoreHandle::new(bad_log.clone());
    let hb = script::open(&core);
    for op in &d.reads {
        one(op, &hb, &core).map_err(what)?;
    }
    for op in &d.writes {
        let core = CoreHandle::new(bad_log.clone());
        let hb = script::open(&core);
        one(op, &hb, &core).map_err(what)?;
        // and go on
        for op in d.reads.iter().take(1).chain(d.writes.first()) {
            exec::run(&core, apply(&hb, op)).map_err(|b| what(format!("{op:?} {b}")))?;
        }
    }
    Ok((h.finish(), n))
}

/// All structural damages of block `seq`: (bytes, structural)
fn structural(log: &Log, seq: u64) -> Vec<(Vec<u8>, bool)> {
    let Some(b) = raw::decode_block(log.get(seq).unwrap()) else { return vec![] };
    let len = log.len();
    let mut out = vec![];
    let mut add = |b: &Block, s: bool| out.push((raw::encode_block(b), s));
    for i in 0..b.levels.len() {
        // nodes missing from the end, from the middle, and swapped
        let mut x = b.clone();
        x.levels.truncate(i);
        add(&x, true);
        let mut x = b.clone();
        x.levels.remove(i);
        add(&x, i + 1 == b.levels.len());
        if i > 0 {
            let mut x = b.clone();
            x.levels.swap(0, i);
            add(&x, false);
        }
        let mut edit = |s: bool, f: &dyn Fn(&mut Level)| {
            let mut x = b.clone();
            f(&mut x.levels[i]);
            if x != b {
                add(&x, s)
            }
        };
        let l = &b.levels[i];
        let inner = !l.children.is_empty();
        edit(true, &|l| {
            l.children.pop();
        });
        edit(true, &|l| l.children.push(1));
        edit(inner, &|l| l.children.truncate(l.children.len().saturating_sub(2)));
        edit(true, &|l| l.children.extend([1, 0]));
        edit(false, &|l| l.children.clear());
        edit(inner, &|l| {
            l.keys.pop();
        });
        edit(inner, &|l| l.keys.clear());
        edit(inner, &|l| l.keys.push(1));
        edit(inner, &|l| {
            l.keys.clear();
            l.children.truncate(2);
        });
        edit(false, &|l| {
            l.keys.clear();
            l.children.clear()
        });
        edit(false, &|l| l.keys.reverse());
        edit(false, &|l| l.keys.extend(l.keys.clone()));
        for k in 0..l.keys.len() {
            for (to, s) in [(0, true), (len, true), (len + 7, true), (u64::MAX, true), (u64::MAX - 1, true), (seq, false), (1, false)] {
                edit(s, &|l| l.keys[k] = to);
            }
            edit(inner, &|l| {
                l.keys.remove(k);
            });
        }
        for c in 0..l.children.len() / 2 {
            for (to, s) in [(0, true), (len, true), (len + 7, true), (u64::MAX, true), (1, false), (seq, false)] {
                edit(s, &|l| l.children[2 * c] = to);
            }
            let levels = raw::decode_block(log.get(l.children[2 * c]).unwrap()).unwrap().levels.len() as u64;
            for to in [levels, levels + 3, u32::MAX as u64, u64::MAX] {
                edit(true, &|l| l.children[2 * c + 1] = to);
            }
            edit(false, &|l| l.children[2 * c + 1] = 0);
            edit(inner, &|l| {
                l.children.drain(2 * c..2 * c + 2);
            });
        }
    }
    // not Hyperbee blocks
    for foreign in [shapes::header(), b"\xff\xff\xff\xff".to_vec(), b"some text that is not a block".to_vec(), vec![0; 16], vec![0x0a, 0x7f]] {
        let s = lenient(&foreign).is_none();
        out.push((foreign, s));
    }
    // another block of the same log
    for s in 1..len {
        if s != seq {
            out.push((log.get(s).unwrap().to_vec(), false));
        }
    }
    out
}

/// Traversals of stores of which one block is damaged
pub fn traversals(ctx: &Ctx, states: &[State]) {
    let blocks: Vec<(usize, u64)> = states.iter().enumerate().flat_map(|(i, s)| (s.log.base.max(1)..s.log.len()).map(move |b| (i, b))).collect();
    ctx.par(&blocks, |(i, seq)| {
        let s = &states[*i];
        let keys: Vec<&K> = s.spec.map.keys().collect();
        let mut reads = vec![];
        for rev in [false, true] {
            let all = Range { rev, ..Range::all() };
            reads.push(Op::Traverse(all.clone()));
            for k in keys.iter().step_by(keys.len() / 6 + 1) {
                reads.push(Op::Traverse(Range { min: B::F(k.to_vec()), ..all.clone() }));
                reads.push(Op::Traverse(Range { max: B::F(k.to_vec()), max_inc: false, ..all.clone() }));
            }
            reads.push(Op::In(Sub { prefix: b"d".to_vec(), sep: Some(vec![]) }, Box::new(Op::Traverse(all))));
        }
        let whole = s.log.get(*seq).unwrap();
        let mut damages = structural(&s.log, *seq);
        damages.extend([0, 1, whole.len() / 2, whole.len() - 1].map(|n| (whole[..n].to_vec(), lenient(&whole[..n]).is_none())));
        for (bytes, structural) in damages {
            let mut bad = s.log.clone();
            bad.blocks[(seq - s.log.base) as usize] = std::sync::Arc::from(&bytes[..]);
            if bytes[..] == whole[..] || !finite(&bad) {
                continue;
            }
            ctx.count("damages", 1);
            ctx.case("damage", &Damage { log: s.log.clone(), seq: *seq, bytes, structural, reads: reads.clone(), writes: vec![] }, run);
        }
    });
    ctx.note("damaged blocks");
}

pub fn c18(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut states: Vec<State> = shapes::reachable(ctx, if t { 18 } else { 12 });
    states.retain(|s| s.log.len() > 1);
    states.extend(crate::c_fault::two_and_three_levels());
    if t {
        states.push(shapes::build(&Shape::uniform(3, 4)));
    }
    // also a log written in another order, whose blocks hold several nodes each
    let long = |n: usize, step: usize, del: usize| {
        let mut log = shapes::header_only();
        for i in 0..n {
            log = shapes::model_step(&log, &Op::Put(shapes::nth_key(i * step % n * 7), shapes::value(i as u64))).unwrap();
        }
        for i in 0..del {
            log = shapes::model_step(&log, &Op::Del(shapes::nth_key(i * 3 % n * 7))).unwrap();
        }
        shapes::state(log)
    };
    states.push(long(40, 17, 0));
    states.push(long(40, 7, 9));
    ctx.count("starting_stores", states.len() as u64);
    let ops = |s: &State, some: bool| {
        let keys: Vec<&K> = s.spec.map.keys().collect();
        let n = keys.len();
        let mut pick = vec![0, n / 3, n / 2, 2 * n / 3, n.saturating_sub(1)];
        if !some {
            pick = (0..n).collect();
        }
        pick.dedup();
        pick.retain(|i| *i < n);
        let mut reads = vec![Op::Traverse(Range::all()), Op::Traverse(Range::all().rev()), Op::Print, Op::Height, Op::Version];
        reads.extend(pick.iter().map(|i| Op::Get(keys[*i].clone())));
        reads.extend(shapes::gaps(&s.spec).into_iter().step_by(n / 3 + 1).map(Op::Get));
        if n > 0 {
            reads.push(Op::Traverse(Range { min: B::F(keys[n / 2].clone()), ..Range::all() }));
            reads.push(Op::Traverse(Range { max: B::F(keys[n / 2].clone()), max_inc: false, rev: true, ..Range::all() }));
        }
        reads.push(Op::In(Sub { prefix: b"c".to_vec(), sep: Some(vec![]) }, Box::new(Op::Traverse(Range::all()))));
        let mut writes: Vec<Op> = pick.iter().flat_map(|i| [Op::Del(keys[*i].clone()), Op::Put(keys[*i].clone(), None)]).collect();
        writes.extend(shapes::gaps(&s.spec).into_iter().step_by(n / 3 + 1).map(|k| Op::Put(k, shapes::value(3))));
        writes.push(Op::DelCas(keys.first().map_or(vec![], |k| k.to_vec()), Cas::Accept));
        (reads, writes)
    };
    let go = |s: &State, seq: u64, bytes: Vec<u8>, structural: bool, some: bool| {
        if bytes[..] == s.log.get(seq).unwrap()[..] {
            return;
        }
        let mut bad = s.log.clone();
        bad.blocks[(seq - s.log.base) as usize] = std::sync::Arc::from(&bytes[..]);
        if !finite(&bad) {
            ctx.count("skipped_cyclic", 1);
            return;
        }
        let (mut reads, mut writes) = ops(s, some);
        if s.spec.map.is_empty() {
            reads.truncate(3);
            writes.truncate(1);
        }
        ctx.count("damages", 1);
        ctx.case("damage", &Damage { log: s.log.clone(), seq, bytes, structural, reads, writes }, run);
    };
    let blocks: Vec<(usize, u64)> = states.iter().enumerate().flat_map(|(i, s)| (s.log.base..s.log.len()).map(move |b| (i, b))).collect();
    ctx.par(&blocks, |(i, seq)| {
        let s = &states[*i];
        for (bytes, st) in structural(&s.log, *seq) {
            go(s, *seq, bytes, st, s.log.len() > 20);
        }
    });
    ctx.note("structural damage");
    ctx.par(&blocks, |(i, seq)| {
        let s = &states[*i];
        let b = s.log.get(*seq).unwrap().clone();
        for n in 0..b.len() {
            go(s, *seq, b[..n].to_vec(), lenient(&b[..n]).is_none(), true);
        }
        for x in [0u8, 0x7f, 0x80, 0xff] {
            let mut v = b.to_vec();
            v.push(x);
            go(s, *seq, v, false, true);
        }
    });
    ctx.note("truncations and extensions");
    let few: Vec<(usize, u64)> = blocks.iter().copied().filter(|(i, _)| t || states[*i].log.len() <= 8 || *i + 2 >= states.len()).collect();
    ctx.par(&few, |(i, seq)| {
        let s = &states[*i];
        let b = s.log.get(*seq).unwrap().clone();
        for at in 0..b.len() {
            // values of 130 bytes: only their ends
            if at > 60 && at + 40 < b.len() {
                continue;
            }
            for v in 0..=255u8 {
                if !t && s.log.len() > 20 && !matches!(v ^ b[at], 1 | 2 | 4 | 0x80 | 0xff) {
                    continue;
                }
                let mut x = b.to_vec();
                x[at] = v;
                go(s, *seq, x, false, true);
            }
        }
    });
    ctx.note("single-byte changes");
}
