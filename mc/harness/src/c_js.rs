//! C27: operations need only the blocks on their way. C28: stores written by JavaScript Hyperbee.
use crate::c_fault::{all_ops, exact, run, some_ops, two_and_three_levels};
use crate::exec;
use crate::js;
use crate::ops::*;
use crate::raw::{self, TreeNode, View};
use crate::report::Ctx;
use crate::script::{self, Script, Step};
use crate::shapes::{self, State};
use futures_util::StreamExt;
use hypercore::mc::{CoreHandle, Log, Missing};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

// ---------------------------------------------------------------------------------------------------------------- C27

/// The blocks an operation may depend on, computed on the tree as the independent reader sees it
struct Needs<'a> {
    view: View<'a>,
    blocks: BTreeSet<u64>,
}

impl Needs<'_> {
    /// a node is looked at: the block it is in, and the blocks of its keys
    fn node(&mut self, n: &TreeNode) {
        self.blocks.insert(n.seq);
        self.blocks.extend(&n.keys);
    }
    fn keys(&mut self, n: &TreeNode) -> Vec<Vec<u8>> {
        n.keys.iter().map(|k| self.view.key(*k).expect("a key")).collect()
    }
    /// the way to a key; positions of the children taken, and whether the last node has the key (and where)
    fn way<'t>(&mut self, root: &'t TreeNode, key: &[u8]) -> (Vec<(&'t TreeNode, usize)>, bool) {
        let mut n = root;
        let mut out = vec![];
        loop {
            self.node(n);
            let keys = self.keys(n);
            let i = keys.iter().position(|k| &k[..] >= key).unwrap_or(keys.len());
            out.push((n, i));
            if keys.get(i).is_some_and(|k| k == key) {
                return (out, true);
            }
            if n.children.is_empty() {
                return (out, false);
            }
            n = &n.children[i];
        }
    }
    /// what is beside the nodes on a way, which rebalancing may have to look at
    fn beside(&mut self, way: &[(&TreeNode, usize)]) {
        for (n, i) in way {
            for j in [i.checked_sub(1), Some(i + 1)].into_iter().flatten() {
                if let Some(c) = n.children.get(j) {
                    self.node(c);
                }
            }
        }
    }
    fn op(&mut self, root: &TreeNode, op: &Op) {
        match op {
            Op::Get(k) | Op::Put(k, _) | Op::PutCas(k, ..) => {
                self.way(root, k);
            }
            Op::Del(k) | Op::DelCas(k, _) => {
                let (way, found) = self.way(root, k);
                if !found {
                    return;
                }
                self.beside(&way);
                let (n, i) = *way.last().unwrap();
                // the key is replaced by its neighbour in a leaf, on either side
                if !n.children.is_empty() {
                    for left in [true, false] {
                        let mut c = &n.children[if left { i } else { i + 1 }];
                        let mut down = vec![];
                        loop {
                            self.node(c);
                            let Some(last) = c.children.len().checked_sub(1) else { break };
                            let j = if left { last } else { 0 };
                            down.push((c, j));
                            c = &c.children[j];
                        }
                        self.beside(&down);
                        self.beside(&[(n, if left { i } else { i + 1 })]);
                    }
                }
            }
            Op::Traverse(r) => {
                self.walk(root, r, usize::MAX, &mut 0);
            }
            Op::Height => {
                let mut n = Some(root);
                while let Some(x) = n {
                    self.blocks.insert(x.seq);
                    n = x.children.first();
                }
            }
            Op::Print => {
                self.walk(root, &Range::all(), usize::MAX, &mut 0);
            }
            Op::In(sub, op) => {
                let full = sub.full();
                let with = |k: &K| [&full[..], k].concat();
                let inner = match &**op {
                    Op::Get(k) => Op::Get(with(k)),
                    Op::Put(k, v) => Op::Put(with(k), v.clone()),
                    Op::Del(k) => Op::Del(with(k)),
                    Op::PutCas(k, v, c) => Op::PutCas(with(k), v.clone(), *c),
                    Op::DelCas(k, c) => Op::DelCas(with(k), *c),
                    Op::Traverse(r) => Op::Traverse(sub_range(&full, r)),
                    o => unreachable!("{o:?}"),
                };
                self.op(root, &inner)
            }
            Op::Version | Op::Header(_) | Op::AddStream(..) => (),
        }
    }
    /// In-order walk of the part of the tree that can hold keys in the range, up to the n-th item
    fn walk(&mut self, n: &TreeNode, r: &Range, max: usize, found: &mut usize) {
        self.node(n);
        let keys = self.keys(n);
        let len = keys.len();
        for step in 0..=2 * len {
            if *found >= max {
                return;
            }
            let at = if r.rev { 2 * len - step } else { step };
            if at % 2 == 0 {
                let i = at / 2;
                let (lo, hi) = (i.checked_sub(1).map(|j| &keys[j]), keys.get(i));
                // at the end the first key that is not in the range may have to be looked at
                let above = match (&r.min, hi) {
                    (B::PosInf, _) => false,
                    (B::F(m), Some(hi)) => m < hi || m == hi && r.min_inc && r.rev,
                    _ => true,
                };
                let below = match (&r.max, lo) {
                    (B::NegInf, _) => false,
                    (B::F(m), Some(lo)) => m > lo || m == lo && r.max_inc && !r.rev,
                    _ => true,
                };
                if above && below {
                    if let Some(c) = n.children.get(i) {
                        self.walk(c, r, max, found);
                    }
                }
            } else if r.contains(&keys[at / 2]) {
                *found += 1;
            }
        }
    }
}

/// The range of the parent that a range of a sub is
fn sub_range(full: &[u8], r: &Range) -> Range {
    let mut out = r.clone();
    match &r.min {
        B::F(k) => out.min = B::F([full, k].concat()),
        B::NegInf => (out.min, out.min_inc) = (B::F(full.to_vec()), true),
        B::PosInf => (),
    }
    match &r.max {
        B::F(k) => out.max = B::F([full, k].concat()),
        B::PosInf => {
            let mut end = full.to_vec();
            while end.last() == Some(&0xff) {
                end.pop();
            }
            match end.last_mut() {
                None => out.max = B::PosInf,
                Some(b) => {
                    *b += 1;
                    (out.max, out.max_inc) = (B::F(end), false);
                }
            }
        }
        B::NegInf => (),
    }
    out
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Need {
    #[serde(with = "script::logser")]
    log: Log,
    op: Op,
    /// an operation performed before, while everything is there
    before: Option<Op>,
    /// of a traversal, take only so many items
    take: Option<usize>,
    /// what is not needed arrives only later (else: is not there)
    wait: bool,
}

pub fn run_need(c: &Need) -> Result<(u64, u64), String> {
    let tree = raw::check_tree(&c.log).map_err(|e| format!("bad case: {e}"))?;
    let mut needs = Needs { view: View::new(&c.log), blocks: Default::default() };
    if let Some(t) = &tree {
        match (&c.op, c.take) {
            (Op::Traverse(r), Some(n)) => {
                // opening needs the root
                needs.node(t);
                needs.walk(t, r, n, &mut 0)
            }
            _ => needs.op(t, &c.op),
        }
    }
    let core = CoreHandle::new(c.log.clone());
    let hb = script::open(&core);
    let mut spec = Spec::of_log(&c.log);
    if let Some(b) = &c.before {
        let want = spec.apply(b).expect("specified");
        let got = exec::run(&core, apply(&hb, b)).map_err(|x| format!("{b:?} {x}"))?;
        if got != want {
            return Err(format!("{b:?} gave {got:?}, expected {want:?}"));
        }
    }
    let absent: BTreeSet<u64> = (c.log.base..c.log.len()).filter(|s| !needs.blocks.contains(s)).collect();
    core.with(|s| {
        s.missing = absent.iter().copied().collect();
        s.on_missing = if c.wait { Missing::Wait } else { Missing::None };
    });
    let fail = |what: String| {
        Err(format!(
            "{:?}{} {what} although all blocks on its way are there ({:?}; not there: {absent:?})",
            c.op,
            c.take.map_or(String::new(), |n| format!(" up to item {n}")),
            needs.blocks
        ))
    };
    let (got, want) = match (&c.op, c.take) {
        (Op::Traverse(r), Some(n)) => {
            let want: Vec<Item> = spec.range(r).into_iter().take(n).collect();
            let got = exec::run(&core, async {
                let mut s = Box::pin(match hb.traverse(r.config()).await {
                    Ok(s) => s,
                    Err(hyperbee::HyperbeeError::NoRootError) => return Res::NoRoot,
                    Err(e) => return Res::Err(format!("{e:?}")),
                });
                let mut items = vec![];
                while items.len() < n {
                    match s.next().await {
                        None => break,
                        Some(Ok(kv)) => items.push(item(&kv)),
                        Some(Err(e)) => return Res::Err(format!("{e:?}")),
                    }
                }
                Res::Items(items)
            });
            (got, if tree.is_none() { Res::NoRoot } else { Res::Items(want) })
        }
        _ => {
            let want = spec.apply(&c.op).expect("specified");
            (exec::run(&core, apply(&hb, &c.op)), want)
        }
    };
    match got {
        Err(b) => fail(format!("{b}")),
        Ok(got) if !matches!((&want, &got), (Res::NoRoot, Res::Items(v)) if v.is_empty()) && got != want => {
            fail(format!("gave {got:?}, expected {want:?},"))
        }
        Ok(_) => Ok((needs.blocks.len() as u64 * 1000 + absent.len() as u64, 1 + c.before.is_some() as u64)),
    }
}

/// Height and print are compared elsewhere (C23): the specification does not know them
fn looked_at(o: &Op) -> bool {
    !matches!(o, Op::Height | Op::Print)
}

pub fn c27(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut states = shapes::reachable(ctx, if t { 30 } else { 20 });
    let reached = states.len();
    states.extend(two_and_three_levels());
    states.extend(shapes::far());
    for s in [shapes::Shape::uniform(3, 4), shapes::Shape::uniform(3, 8), shapes::Shape::uniform(4, 4)] {
        states.push(shapes::build(&s));
    }
    ctx.count("states", states.len() as u64);
    let mut work: Vec<(usize, Op, Option<usize>)> = vec![];
    for (i, s) in states.iter().enumerate() {
        let every = s.spec.map.len() <= if t { 200 } else { 60 };
        let keys: Vec<K> = s.spec.map.keys().cloned().chain(shapes::gaps(&s.spec)).collect();
        let step = if every { 1 } else { keys.len() / 60 + 1 };
        let mut ops = if i < reached || every { all_ops(&s.spec) } else { some_ops(&s.spec, 150) };
        for k in keys.iter().step_by(step) {
            ops.push(Op::Get(k.clone()));
            ops.push(Op::DelCas(k.clone(), Cas::Accept));
            ops.push(Op::PutCas(k.clone(), Some(vec![1]), Cas::IfPresent));
        }
        ops.extend([Op::Version, Op::Header(None), Op::AddStream(3, true)]);
        // ranges: every bound, and pairs of bounds
        let bounds: Vec<&K> = keys.iter().step_by(step).collect();
        let far = bounds.len() / 5 + 1;
        for (x, b) in bounds.iter().enumerate() {
            for rev in [false, true] {
                for inc in [false, true] {
                    let min = Range { min: B::F(b.to_vec()), min_inc: inc, rev, ..Range::all() };
                    let max = Range { max: B::F(b.to_vec()), max_inc: inc, rev, ..Range::all() };
                    for n in [0, 1, 2, 3] {
                        work.push((i, Op::Traverse(min.clone()), Some(n)));
                        work.push((i, Op::Traverse(max.clone()), Some(n)));
                    }
                    for c in bounds.iter().skip(x % far).step_by(far).chain(bounds.get(x + 1)).filter(|c| b < *c || b == *c && inc) {
                        ops.push(Op::Traverse(Range { max: B::F(c.to_vec()), max_inc: inc, ..min.clone() }));
                    }
                    ops.push(Op::Traverse(min));
                    ops.push(Op::Traverse(max));
                }
            }
        }
        for rev in [false, true] {
            let r = Range { rev, ..Range::all() };
            for n in (0..=s.spec.map.len()).step_by(if every { 1 } else { 17 }) {
                work.push((i, Op::Traverse(r.clone()), Some(n)));
            }
        }
        // subs: of each stored key's first letters
        for k in keys.iter().step_by(step * 3) {
            let sub = Sub { prefix: k[..k.len() / 2].to_vec(), sep: Some(vec![]) };
            let rest = k[k.len() / 2..].to_vec();
            for o in [Op::Get(rest.clone()), Op::Put(rest.clone(), None), Op::Del(rest.clone()), Op::Traverse(Range::all()), Op::Traverse(Range::all().rev())] {
                ops.push(Op::In(sub.clone(), Box::new(o)));
            }
        }
        work.extend(ops.into_iter().filter(looked_at).map(|o| (i, o, None)));
    }
    ctx.par(&work, |(i, op, take)| {
        let s = &states[*i];
        for wait in [false, true] {
            ctx.case("need", &Need { log: s.log.clone(), op: op.clone(), before: None, take: *take, wait }, run_need);
        }
        // after something else was read on the same handle
        if let (Some(k), None) = (s.spec.map.keys().nth(s.spec.map.len() / 3), take) {
            ctx.case("need", &Need { log: s.log.clone(), op: op.clone(), before: Some(Op::Get(k.clone())), take: *take, wait: false }, run_need);
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------- C28

/// The log after JavaScript Hyperbee has flushed a batch of operations: one block for each that has an effect, of which
/// only the last holds a root; the others keep those of their nodes that the last tree still refers to, with the holes
/// filled from the end (Batch.flush). None: no effect.
pub fn batch(log: &Log, ops: &[Op]) -> Option<Log> {
    let mut l = log.clone();
    if l.is_empty() {
        l.push(&shapes::header());
    }
    let first = l.len();
    for op in ops {
        match op {
            Op::Put(k, v) => {
                let b = js::put(&l, k, v.as_deref())?;
                l.push(&b)
            }
            Op::Del(k) => {
                if let Some(b) = js::del(&l, k)? {
                    l.push(&b)
                }
            }
            _ => return None,
        }
    }
    if l.len() == first {
        return None;
    }
    let last = l.len() - 1;
    let tree = View::new(&l).tree(last).ok()?;
    let mut used = BTreeSet::new();
    fn walk(n: &TreeNode, used: &mut BTreeSet<(u64, u64)>) {
        used.insert((n.seq, n.offset));
        n.children.iter().for_each(|c| walk(c, used));
    }
    walk(&tree, &mut used);
    let mut blocks: Vec<raw::Block> = (first..=last).map(|s| raw::decode_block(l.get(s).unwrap()).unwrap()).collect();
    let mut moved = std::collections::HashMap::new();
    for (i, b) in blocks.iter_mut().enumerate() {
        let seq = first + i as u64;
        if seq == last {
            continue;
        }
        assert!(!used.contains(&(seq, 0)), "the root of an operation inside a batch is replaced by the next one");
        // pendingIndex: positions whose node is still referred to stay, others are filled from the end
        let mut pending: Vec<Option<u64>> = (0..b.levels.len() as u64).map(|o| used.contains(&(seq, o)).then_some(o)).collect();
        let mut j = 0;
        while j < pending.len() {
            if let Some(old) = pending[j] {
                moved.insert((seq, old), j as u64);
                j += 1;
                continue;
            }
            let x = pending.pop().unwrap();
            if j < pending.len() {
                pending[j] = x;
            }
        }
        b.levels = pending.iter().map(|o| b.levels[o.unwrap() as usize].clone()).collect();
    }
    l.blocks.truncate((first - l.base) as usize);
    for mut b in blocks {
        for n in &mut b.levels {
            for c in n.children.chunks_mut(2) {
                if let Some(o) = moved.get(&(c[0], c[1])) {
                    c[1] = *o;
                }
            }
        }
        l.push(&raw::encode_block(&b));
    }
    Some(l)
}

/// Ways to write the same block that the schema allows
#[derive(Clone, Copy, PartialEq)]
struct Style {
    /// fields a newer schema might have
    unknown: bool,
    /// repeated numbers one by one
    unpacked: bool,
    /// fields in another order
    reorder: bool,
    /// repeated numbers in several packed pieces
    pieces: bool,
}
fn field(out: &mut Vec<u8>, f: u64, b: &[u8]) {
    raw::put_varint(out, f << 3 | 2);
    raw::put_varint(out, b.len() as u64);
    out.extend_from_slice(b);
}
fn strange(out: &mut Vec<u8>, n: usize) {
    match n % 4 {
        0 => {
            raw::put_varint(out, 15 << 3);
            raw::put_varint(out, u64::MAX);
        }
        1 => {
            raw::put_varint(out, 14 << 3 | 1);
            out.extend_from_slice(&[0xff; 8]);
        }
        2 => field(out, 2000, b"\x0a\x01\x02"),
        _ => {
            raw::put_varint(out, 13 << 3 | 5);
            out.extend_from_slice(&[0; 4]);
        }
    }
}
impl Style {
    fn put(&self, fields: &[Vec<u8>]) -> Vec<u8> {
        let mut out = vec![];
        let mut f: Vec<&Vec<u8>> = fields.iter().collect();
        if self.reorder {
            f.reverse()
        }
        for (i, b) in f.iter().enumerate() {
            if self.unknown {
                strange(&mut out, i + b.len());
            }
            out.extend_from_slice(b);
        }
        if self.unknown {
            strange(&mut out, fields.len() + 1);
        }
        out
    }
    fn ints(&self, f: u64, v: &[u64]) -> Vec<u8> {
        let mut out = vec![];
        if v.is_empty() {
            return out;
        }
        if self.unpacked {
            for x in v {
                raw::put_varint(&mut out, f << 3);
                raw::put_varint(&mut out, *x);
            }
            return out;
        }
        let at = if self.pieces { v.len() / 2 } else { 0 };
        for part in [&v[..at], &v[at..]] {
            // an empty piece is allowed as well
            if self.pieces || !part.is_empty() {
                let mut b = vec![];
                part.iter().for_each(|x| raw::put_varint(&mut b, *x));
                field(&mut out, f, &b);
            }
        }
        out
    }
    fn block(&self, b: &raw::Block) -> Vec<u8> {
        let levels: Vec<Vec<u8>> = b
            .levels
            .iter()
            .map(|l| {
                let body = self.put(&[self.ints(1, &l.keys), self.ints(2, &l.children)]);
                let mut out = vec![];
                field(&mut out, 1, &body);
                out
            })
            .collect();
        // the order of the nodes matters
        let index = Style { reorder: false, ..*self }.put(&levels);
        let mut fields = vec![vec![], vec![]];
        field(&mut fields[0], 1, &index);
        field(&mut fields[1], 2, &b.key);
        if let Some(v) = &b.value {
            fields.push(vec![]);
            field(&mut fields[2], 3, v);
        }
        self.put(&fields)
    }
    fn header(&self, h: &raw::Header) -> Vec<u8> {
        let mut fields = vec![vec![]];
        field(&mut fields[0], 1, &h.protocol);
        if let Some((c, u)) = &h.metadata {
            let mut m = vec![];
            for (f, x) in [(1, c), (2, u)] {
                if let Some(x) = x {
                    m.push(vec![]);
                    field(m.last_mut().unwrap(), f, x);
                }
            }
            fields.push(vec![]);
            field(&mut fields[1], 2, &self.put(&m));
        }
        self.put(&fields)
    }
    fn log(&self, log: &Log, only: impl Fn(u64) -> bool) -> Log {
        let mut out = Log { base: log.base, blocks: vec![] };
        for seq in log.base..log.len() {
            let b = log.get(seq).unwrap();
            if !only(seq) {
                out.push(b);
            } else if seq == 0 {
                out.push(&self.header(&raw::decode_header(b).unwrap()));
            } else {
                out.push(&self.block(&raw::decode_block(b).unwrap()));
            }
        }
        out
    }
}
fn styles() -> Vec<Style> {
    let mut v = vec![];
    for unknown in [false, true] {
        for (unpacked, pieces) in [(false, false), (true, false), (false, true)] {
            for reorder in [false, true] {
                v.push(Style { unknown, unpacked, reorder, pieces });
            }
        }
    }
    v
}

/// Everything is read, then the store is used further, every block compared with JavaScript Hyperbee's
fn use_store(ctx: &Ctx, log: &Log, ops: &[Vec<Op>]) {
    use_probed(ctx, log, ops, shapes::gaps(&Spec::of_log(log)))
}
fn use_probed(ctx: &Ctx, log: &Log, ops: &[Vec<Op>], probes: Vec<K>) {
    let mk = || {
        let mut s = Script::new(log.clone());
        s.bytes = true;
        s.len = true;
        s.probes = probes.clone();
        s
    };
    let mut s = mk();
    s.steps = vec![
        Step::Check { h: 0 },
        exact(Op::Version),
        exact(Op::Traverse(Range::all())),
        exact(Op::Traverse(Range::all().rev())),
        exact(Op::Header(None)),
        Step::CheckTree,
        Step::CheckFresh,
    ];
    run(ctx, &s);
    for o in ops {
        let mut s = mk();
        s.stride = 3;
        s.steps = o.iter().cloned().map(exact).collect();
        s.steps.extend([Step::Check { h: 0 }, Step::CheckTree, Step::CheckFresh]);
        run(ctx, &s);
    }
}

pub fn c28(ctx: &Ctx) {
    let t = ctx.thorough;
    let states = shapes::reachable(ctx, if t { 24 } else { 18 });
    ctx.count("states", states.len() as u64);
    let follow = |log: &Log, every: usize| -> Vec<Vec<Op>> {
        let spec = Spec::of_log(log);
        shapes::mutations(&spec).into_iter().step_by(every).map(|o| vec![o]).collect()
    };
    // batches of two and three operations from every (small) shape
    let mut pairs: Vec<(&State, Op)> = vec![];
    for s in &states {
        pairs.extend(shapes::mutations(&s.spec).into_iter().map(|o| (s, o)));
    }
    ctx.par(&pairs, |(s, a)| {
        let mut after = s.spec.clone();
        after.plain_header();
        after.apply(a);
        let n = s.spec.map.len();
        for b in shapes::mutations(&after) {
            let Some(l) = batch(&s.log, &[a.clone(), b.clone()]) else { continue };
            ctx.count("batches", 1);
            let f = if n <= if t { 9 } else { 5 } { follow(&l, 1) } else { follow(&l, 7) };
            use_store(ctx, &l, &f);
            if n <= if t { 8 } else { 2 } {
                let mut third = after.clone();
                third.apply(&b);
                for c in shapes::mutations(&third) {
                    if let Some(l) = batch(&s.log, &[a.clone(), b.clone(), c]) {
                        ctx.count("batches", 1);
                        use_store(ctx, &l, &follow(&l, 5));
                    }
                }
            }
        }
    });
    ctx.note("batches of two and three operations");
    // batches of every length that build up and take down a store, one after the other
    let mut long: Vec<(usize, usize, usize)> = vec![];
    for per in (1..=12).chain([16, 25, 40, 64, 100, 300]) {
        for order in 0..4 {
            for total in [9, 30, 90, if t { 500 } else { 200 }] {
                long.push((per, order, total));
            }
        }
    }
    ctx.par(&long, |&(per, order, total)| {
        let at = |i: usize| match order {
            0 => i,
            1 => total - 1 - i,
            2 => i * 7 % (total | 1),
            _ => if i % 2 == 0 { i / 2 } else { total - 1 - i / 2 },
        };
        let mut ops: Vec<Op> = (0..total).map(|i| Op::Put(shapes::nth_key(at(i)), shapes::value(i as u64))).collect();
        ops.extend((0..total).step_by(3).map(|i| Op::Del(shapes::nth_key(at(i)))));
        ops.extend((0..total).step_by(5).map(|i| Op::Put(shapes::nth_key(at(i)), None)));
        ops.extend((1..total).map(|i| Op::Del(shapes::nth_key(at(total - i)))));
        let mut log = shapes::empty();
        for (i, c) in ops.chunks(per).enumerate() {
            if let Some(l) = batch(&log, c) {
                log = l;
                ctx.count("batches", 1);
            }
            let many = ops.len() / per;
            let some = if t { 40 } else { 10 };
            if many <= some || i % (many / some + 1) == 0 {
                let f = follow(&log, 1 + log.len() as usize / 3);
                use_store(ctx, &log, &f);
            }
        }
    });
    ctx.note("long batches");
    // awkward keys and values: every batch of one, two and three operations on a new store, and of one and two after it
    let keys: Vec<K> = [&b""[..], b"\0", b"a", b"a\0", b"\xff", b"hyperbee"].map(|k| k.to_vec()).into();
    let mut ops = vec![];
    for k in &keys {
        for v in [None, Some(vec![]), Some(vec![0, 0xff])] {
            ops.push(Op::Put(k.to_vec(), v));
        }
        ops.push(Op::Del(k.to_vec()));
    }
    ctx.par(&ops, |a| {
        let mut all = vec![vec![a.clone()]];
        for b in &ops {
            all.push(vec![a.clone(), b.clone()]);
            all.extend(ops.iter().map(|c| vec![a.clone(), b.clone(), c.clone()]));
        }
        for (i, o) in all.iter().enumerate() {
            for cut in 1..=o.len() {
                let Some(mut l) = batch(&shapes::empty(), &o[..cut]) else { continue };
                for x in &o[cut..] {
                    l = batch(&l, std::slice::from_ref(x)).unwrap_or(l);
                }
                ctx.count("batches", 1);
                let f: Vec<Vec<Op>> = match o.len() {
                    1 => ops.iter().map(|o| vec![o.clone()]).collect(),
                    _ => ops.iter().skip(i % 5).step_by(5).map(|o| vec![o.clone()]).collect(),
                };
                use_probed(ctx, &l, &f, keys.clone());
            }
        }
    });
    // values and keys of every size class, alone and among others
    let sizes = [0usize, 1, 127, 128, 255, 256, 4095, 4096, 16383, 16384, 65535, 65536, (1 << 20) + 1, 1 << 21];
    ctx.par(&sizes, |&n| {
        let big = |b: u8| vec![b; n];
        for (k, v) in [(b"k".to_vec(), Some(big(7))), (big(b'k'), None), (big(b'k'), Some(big(0)))] {
            for around in [0usize, 1, 9] {
                let mut o: Vec<Op> = (0..around).map(|i| Op::Put(shapes::nth_key(i), shapes::value(i as u64))).collect();
                for at in [0, o.len()] {
                    o.insert(at, Op::Put(k.clone(), v.clone()));
                    for per in [1, o.len()] {
                        let mut l = shapes::empty();
                        for c in o.chunks(per) {
                            l = batch(&l, c).unwrap();
                        }
                        ctx.count("batches", 1);
                        use_probed(ctx, &l, &[vec![Op::Put(b"z".to_vec(), None)], vec![Op::Del(k.clone())], vec![Op::Put(k.clone(), None)]], vec![]);
                    }
                    o.remove(at);
                }
            }
        }
    });
    ctx.note("awkward keys and values of JavaScript Hyperbee");
    // the same blocks written in other ways
    let mut logs: Vec<Log> = states.iter().map(|s| s.log.clone()).collect();
    logs.extend(two_and_three_levels().into_iter().map(|s| s.log));
    logs.extend(shapes::far().into_iter().map(|s| s.log));
    for meta in [
        None,
        Some((None, None)),
        Some((Some(b"feed".to_vec()), None)),
        Some((None, Some(vec![]))),
        Some((Some(vec![0xff; 32]), Some(b"\0user\xff".to_vec()))),
    ] {
        let mut l = Log::default();
        l.push(&raw::encode_header(&raw::Header { protocol: b"hyperbee".to_vec(), metadata: meta }));
        logs.push(l.clone());
        for (k, v) in [(&b"d"[..], None), (b"k", Some(&b""[..])), (b"x", Some(b"v"))] {
            l = shapes::model_step(&l, &Op::Put(k.to_vec(), v.map(|v| v.to_vec()))).unwrap();
            logs.push(l.clone());
        }
    }
    ctx.par(&logs, |log| {
        if log.is_empty() {
            return;
        }
        for (i, style) in styles().into_iter().enumerate() {
            for which in 0..3u64 {
                let l = style.log(log, |s| which == 0 || s % 2 == which - 1);
                let f = follow(&l, if t { 1 } else { 3 + i % 3 });
                use_store(ctx, &l, &f);
                ctx.count("other_encodings", 1);
            }
        }
    });
    ctx.note("other encodings");
}
