//! The explicit state space: tree shapes. A state is a log whose newest tree has a given shape; keys only matter by
//! their order (the code compares keys and nothing else), so one representative per shape is kept. States are
//! generated by the reference (js.rs); the checks replay every transition on the implementation.
use crate::js;
use crate::ops::*;
use crate::raw::{self, Block, Level};
use crate::report::Ctx;
use hypercore::mc::Log;
use std::collections::HashSet;
use std::sync::Mutex;

#[derive(Clone)]
pub struct State {
    pub log: Log,
    pub spec: Spec,
    pub shape: Vec<u8>,
}

pub fn header() -> Vec<u8> {
    raw::encode_header(&raw::Header { protocol: b"hyperbee".to_vec(), metadata: None })
}

pub fn empty() -> Log {
    Log::default()
}
pub fn header_only() -> Log {
    let mut l = Log::default();
    l.push(&header());
    l
}

/// A key strictly between `a` and `b` (None: unbounded); lower-case ASCII, never ending in 'a'
pub fn between(a: Option<&[u8]>, b: Option<&[u8]>) -> Vec<u8> {
    let a = a.unwrap_or(b"");
    let mut out = vec![];
    let mut i = 0;
    let mut tight = b.is_some();
    loop {
        let lo = a.get(i).copied().unwrap_or(b'a');
        let hi = if tight { b.unwrap().get(i).copied().unwrap_or(b'a') } else { b'z' + 1 };
        if hi > lo + 1 {
            out.push((lo + hi) / 2);
            return out;
        }
        out.push(lo);
        if hi != lo {
            tight = false
        }
        i += 1;
        assert!(i < 60, "between {a:?} {b:?}");
    }
}

/// All gaps between the stored keys, as a key for each
pub fn gaps(spec: &Spec) -> Vec<K> {
    let keys: Vec<&K> = spec.map.keys().collect();
    (0..=keys.len())
        .map(|i| {
            between(
                i.checked_sub(1).map(|j| &keys[j][..]),
                keys.get(i).map(|k| &k[..]),
            )
        })
        .collect()
}

/// Values of various kinds, by index
pub fn value(n: u64) -> V {
    match n % 5 {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![0]),
        3 => Some(format!("value {n}").into_bytes()),
        _ => Some(vec![b'x'; 130]),
    }
}

/// All mutations of a state: insert into each gap, replace each key, delete each key
pub fn mutations(spec: &Spec) -> Vec<Op> {
    let n = spec.len;
    let mut v: Vec<Op> = gaps(spec).into_iter().map(|k| Op::Put(k, value(n))).collect();
    v.extend(spec.map.keys().map(|k| Op::Put(k.clone(), value(n + 1))));
    v.extend(spec.map.keys().map(|k| Op::Del(k.clone())));
    v
}

/// The reference's transition
pub fn model_step(log: &Log, op: &Op) -> Option<Log> {
    let mut l = log.clone();
    if l.is_empty() {
        l.push(&header());
    }
    match op {
        Op::Put(k, v) => {
            let b = js::put(&l, k, v.as_deref())?;
            l.push(&b)
        }
        Op::Del(k) => {
            let b = js::del(&l, k)??;
            l.push(&b)
        }
        _ => return None,
    }
    Some(l)
}

pub fn state(log: Log) -> State {
    let spec = Spec::of_log(&log);
    let shape = match raw::check_tree(&log) {
        Ok(Some(t)) => t.shape_vec(),
        Ok(None) => vec![255, log.len() as u8],
        Err(e) => panic!("the reference produced an invalid tree: {e}"),
    };
    State { log, spec, shape }
}

/// All shapes reachable from the empty store with at most `max_keys` keys (fixpoint of the reference's transitions).
pub fn reachable(ctx: &Ctx, max_keys: usize) -> Vec<State> {
    let mut seen: HashSet<Vec<u8>> = Default::default();
    let mut all: Vec<State> = vec![state(empty()), state(header_only())];
    seen.extend(all.iter().map(|s| s.shape.clone()));
    let mut frontier = vec![(0, all[0].clone())];
    let mut depth = 0;
    while !frontier.is_empty() {
        depth += 1;
        // candidates with the position they were found at, so that the representative kept does not depend on timing
        let found: Mutex<Vec<(usize, usize, Vec<u8>, Log)>> = Default::default();
        ctx.par(&frontier, |(at, s)| {
            for (i, op) in mutations(&s.spec).into_iter().enumerate() {
                if let Op::Put(k, _) = &op {
                    if s.spec.map.contains_key(k) || s.spec.map.len() >= max_keys {
                        continue;
                    }
                }
                let log = model_step(&s.log, &op).expect("the reference can step");
                let shape = raw::View::new(&log).tree(log.len() - 1).expect("valid tree").shape_vec();
                if !seen.contains(&shape) {
                    found.lock().unwrap().push((*at, i, shape, log));
                }
            }
        });
        let mut found = found.into_inner().unwrap();
        found.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
        frontier.clear();
        for (_, _, shape, log) in found {
            if seen.insert(shape) {
                let s = state(log);
                all.push(s.clone());
                frontier.push((frontier.len(), s));
            }
        }
    }
    ctx.note(format!("reachable shapes with at most {max_keys} keys: {} (fixpoint after {depth} levels)", all.len()));
    all
}

/// A tree of a given shape, written out directly
#[derive(Clone)]
pub enum Shape {
    Leaf(usize),
    Node(Vec<Shape>),
}
impl Shape {
    pub fn n_keys(&self) -> usize {
        match self {
            Shape::Leaf(n) => *n,
            Shape::Node(c) => c.len() - 1 + c.iter().map(|c| c.n_keys()).sum::<usize>(),
        }
    }
    /// all nodes minimal (4 keys) with the given height
    pub fn uniform(height: usize, keys: usize) -> Shape {
        if height == 1 {
            Shape::Leaf(keys)
        } else {
            Shape::Node((0..=keys).map(|_| Shape::uniform(height - 1, keys)).collect())
        }
    }
}

impl Shape {
    /// a further key (and child) at the end of the root
    pub fn with_root_keys(self, keys: usize) -> Shape {
        match self {
            Shape::Leaf(_) => Shape::Leaf(keys),
            Shape::Node(mut c) => {
                while c.len() <= keys {
                    c.push(c[0].clone());
                }
                Shape::Node(c)
            }
        }
    }
}

/// A key for position `i` of `n`
pub fn nth_key(i: usize) -> K {
    // two letters per digit of base 20, spaced so that there is always room in between
    let mut v = vec![];
    let (mut x, digits) = if i < 8000 { (i, 3) } else { (i - 8000, 5) };
    for _ in 0..digits {
        v.push(b'c' + (x % 20) as u8);
        x /= 20;
    }
    if i >= 8000 {
        v.push(b'w');
    }
    v.reverse();
    v
}

/// Write `shape` as a log: one block per key in key order; every node is stored in the block of the last key of its
/// subtree (root last). This is a layout JS Hyperbee could have produced: references only point backwards.
pub fn build(shape: &Shape) -> State {
    let n = shape.n_keys();
    let mut blocks: Vec<Block> = (0..n)
        .map(|i| Block { levels: vec![], key: nth_key(i), value: value(i as u64 + 3) })
        .collect();
    // nodes per block, pre-order
    struct Built {
        keys: Vec<u64>,
        children: Vec<Built>,
        last: u64,
    }
    fn layout(s: &Shape, next: &mut u64) -> Built {
        match s {
            Shape::Leaf(k) => {
                let keys: Vec<u64> = (*next..*next + *k as u64).collect();
                *next += *k as u64;
                Built { last: *keys.last().unwrap(), keys, children: vec![] }
            }
            Shape::Node(c) => {
                let (mut keys, mut children) = (vec![], vec![]);
                for (i, c2) in c.iter().enumerate() {
                    children.push(layout(c2, next));
                    if i + 1 < c.len() {
                        keys.push(*next);
                        *next += 1;
                    }
                }
                let last = children.last().unwrap().last;
                Built { keys, children, last }
            }
        }
    }
    fn emit(b: &Built, blocks: &mut Vec<Block>) -> (u64, u64) {
        let idx = (b.last - 1) as usize;
        let offset = blocks[idx].levels.len();
        blocks[idx].levels.push(Level { keys: b.keys.clone(), children: vec![] });
        let mut refs = vec![];
        for c in &b.children {
            let (s, o) = emit(c, blocks);
            refs.extend([s, o]);
        }
        blocks[idx].levels[offset].children = refs;
        (b.last, offset as u64)
    }
    let b = layout(shape, &mut 1);
    emit(&b, &mut blocks);
    let mut log = header_only();
    for b in &blocks {
        log.push(&raw::encode_block(b));
    }
    state(log)
}

/// The same log with every block number moved by `by`: what is left of a store whose older blocks are gone
pub fn shifted(log: &Log, by: u64) -> State {
    let first = u64::from(log.base == 0);
    let mut out = Log { base: log.base + first + by, blocks: vec![] };
    for seq in log.base + first..log.len() {
        let mut b = raw::decode_block(log.get(seq).expect("present")).expect("a Hyperbee block");
        for l in &mut b.levels {
            l.keys.iter_mut().for_each(|k| *k += by);
            l.children.chunks_mut(2).for_each(|c| c[0] += by);
        }
        out.push(&raw::encode_block(&b));
    }
    state(out)
}

/// Stores whose block numbers lie around and beyond the powers of two that narrower integers end at
pub fn far() -> Vec<State> {
    let logs = [
        build(&Shape::Leaf(2)),
        build(&Shape::Leaf(8)),
        build(&Shape::Node(vec![Shape::Leaf(4), Shape::Leaf(5)])),
        build(&Shape::Node(vec![Shape::Leaf(8), Shape::Leaf(4), Shape::Leaf(4)])),
    ];
    let mut out = vec![];
    for b in [1u64 << 7, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 62] {
        for (i, s) in logs.iter().enumerate() {
            out.push(shifted(&s.log, b - [2, 5, 6, 16][i]));
            if i == 2 {
                out.push(shifted(&s.log, b + 3));
            }
        }
    }
    out
}

/// Three-level trees covering the local situations of an insertion or deletion: for a target leaf, the sizes of the
/// leaf and its neighbours, of its parent and the parent's neighbours, its position among its siblings, the parent's
/// position under the root, and the root's size.
pub fn local_configs(leaf_sizes: &[usize], mid_sizes: &[usize], roots: &[usize]) -> Vec<(Shape, usize)> {
    let mut out = vec![];
    for &r in roots {
        let mut mid_positions = vec![0, r];
        if r >= 2 {
            mid_positions.push(1)
        }
        for &mp in &mid_positions {
            for &m in mid_sizes {
                for &ml in mid_sizes {
                    for &mr in mid_sizes {
                        if (mp == 0 && ml != mid_sizes[0]) || (mp == r && mr != mid_sizes[0]) {
                            continue;
                        }
                        for lp in [0, 1, m] {
                            for &l in leaf_sizes {
                                for &ll in leaf_sizes {
                                    for &lr in leaf_sizes {
                                        if (lp == 0 && ll != leaf_sizes[0]) || (lp == m && lr != leaf_sizes[0]) {
                                            continue;
                                        }
                                        let mut before = 0;
                                        let mut roots_children = vec![];
                                        for i in 0..=r {
                                            let k = if i == mp {
                                                m
                                            } else if i + 1 == mp {
                                                ml
                                            } else if i == mp + 1 {
                                                mr
                                            } else {
                                                4
                                            };
                                            let leaves: Vec<Shape> = (0..=k)
                                                .map(|j| {
                                                    Shape::Leaf(if i != mp {
                                                        4
                                                    } else if j == lp {
                                                        l
                                                    } else if j + 1 == lp {
                                                        ll
                                                    } else if j == lp + 1 {
                                                        lr
                                                    } else {
                                                        4
                                                    })
                                                })
                                                .collect();
                                            if i == mp {
                                                before = roots_children.iter().map(|c: &Shape| c.n_keys() + 1).sum::<usize>()
                                                    + leaves[..lp].iter().map(|c| c.n_keys() + 1).sum::<usize>();
                                            }
                                            roots_children.push(Shape::Node(leaves));
                                        }
                                        // index of the first key of the target leaf
                                        out.push((Shape::Node(roots_children), before));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    out
}
